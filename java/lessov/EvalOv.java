package lessov;

import tla2sany.semantic.ExprOrOpArgNode;
import tlc2.overrides.Evaluation;
import tlc2.tool.TLCState;
import tlc2.tool.coverage.CostModel;
import tlc2.tool.impl.Tool;
import tlc2.util.Context;
import tlc2.value.impl.Value;

/** TLC's own TLCEval, except that nested failures do not send TLC's message
    formatting into an endless loop (a message without text leaves a place
    holder, which the next level replaces by itself). */
public final class EvalOv {
    @Evaluation(definition = "TLCEval", module = "TLC", warn = false, silent = true)
    public static Value tlcEval(Tool tool, ExprOrOpArgNode[] args, Context c, TLCState s0, TLCState s1, int control, CostModel cm) {
        try {
            return tlc2.module.TLCEval.tlcEval(tool, args, c, s0, s1, control, cm);
        } catch (VirtualMachineError e) {
            throw e;
        } catch (Throwable e) {
            String m = String.valueOf(e.getMessage()).replace('%', '/');
            int n = m.length();
            throw new RuntimeException(m.startsWith("LESS ") ? m : "LESS no value: " + e.getClass().getName() + " " + (n > 300 ? m.substring(0, 300) : m));
        }
    }
}

package lessov;
import tlc2.overrides.ITLCOverrides;
/** Reading traces only. */
public class TraceOverrides implements ITLCOverrides {
    @SuppressWarnings("rawtypes")
    @Override
    public Class[] get() { return new Class[] { TraceOv.class, EvalOv.class }; }
}

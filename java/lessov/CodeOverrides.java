package lessov;
import tlc2.overrides.ITLCOverrides;
/** Everything but Keccak. */
public class CodeOverrides implements ITLCOverrides {
    @SuppressWarnings("rawtypes")
    @Override
    public Class[] get() { return new Class[] { CodeOv.class }; }
}

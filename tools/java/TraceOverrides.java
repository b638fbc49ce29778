import tlc2.overrides.ITLCOverrides;

public class TraceOverrides implements ITLCOverrides {
    @Override
    public Class[] get() { return new Class[] { TraceData.class }; }
}

import tlc2.overrides.ITLCOverrides;

/** Registers NumOps with TLC (-Dtlc2.overrides.TLCOverrides=...:NumOverrides). */
public class NumOverrides implements ITLCOverrides {
    @Override public Class[] get() { return new Class[] { NumOps.class }; }
}

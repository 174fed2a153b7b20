import tlc2.overrides.ITLCOverrides;

/** Registers NumImpl with TLC (-Dtlc2.overrides.TLCOverrides=NumOverrides:...). */
public final class NumOverrides implements ITLCOverrides {
  @SuppressWarnings("rawtypes")
  @Override
  public Class[] get() {
    return new Class[] {NumImpl.class};
  }
}

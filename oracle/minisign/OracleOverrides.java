package minisign;

import tlc2.overrides.ITLCOverrides;

public final class OracleOverrides implements ITLCOverrides {
    @SuppressWarnings("rawtypes")
    @Override
    public Class[] get() {
        return new Class[] {Oracle.class};
    }
}

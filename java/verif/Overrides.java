package verif;

import tlc2.overrides.ITLCOverrides;

/** Adds verif.IReal to the CommunityModules overrides. */
public final class Overrides implements ITLCOverrides {
    @Override
    public Class[] get() {
        Class[] base = new tlc2.overrides.TLCOverrides().get();
        Class[] all = java.util.Arrays.copyOf(base, base.length + 1);
        all[base.length] = IReal.class;
        return all;
    }
}

import java.math.BigInteger;
import tlc2.overrides.ITLCOverrides;

/** Registers the evaluator for module Rat with TLC. */
public class RatOverrides implements ITLCOverrides {
    @SuppressWarnings("rawtypes")
    @Override
    public Class[] get() {
        return new Class[] { RatOps.class };
    }
}

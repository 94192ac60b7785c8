import java.math.BigInteger;
import tlc2.value.impl.*;

/** TLC module override of Exact.tla: the same in whole numbers of any size. */
public class Exact {
  private static BigInteger n(Value v) { return BigInteger.valueOf(((IntValue) v).val); }
  private static BigInteger part(Value r, int i) { return n(((TupleValue) r.toTuple()).elems[i]); }

  public static Value RatLe(Value a, Value b) {
    return part(a, 0).multiply(part(b, 1)).compareTo(part(b, 0).multiply(part(a, 1))) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
  }

  public static Value Root(Value r, Value u) {
    return IntValue.gen(part(r, 0).multiply(n(u)).multiply(n(u)).divide(part(r, 1)).sqrt().intValueExact());
  }

  public static Value RootCmp(Value r, Value R, Value u) {
    BigInteger a = part(r, 0).multiply(n(u)).multiply(n(u)), b = n(R).multiply(n(R)).multiply(part(r, 1));
    if (a.subtract(b).abs().multiply(BigInteger.valueOf(100000)).compareTo(b.divide(BigInteger.valueOf(1000000))) <= 0) return IntValue.gen(0);
    return IntValue.gen(a.compareTo(b) < 0 ? -1 : 1);
  }
}

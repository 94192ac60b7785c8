import tlc2.value.impl.IntValue;
import tlc2.value.impl.Value;

/** TLC module override of Trig.tla. Works on unit vectors, independently of the code under test. */
public class Trig {
  private static double i(Value v) { return ((IntValue) v).val; }
  private static Value out(double r) { return IntValue.gen((int) Math.round(r * 1e8)); }
  private static double deg(double n, double d) { return Math.toRadians(n / d); }

  private static double[] vec(double lng, double lat) {
    return new double[] {Math.cos(lat) * Math.cos(lng), Math.cos(lat) * Math.sin(lng), Math.sin(lat)};
  }
  private static double dot(double[] a, double[] b) { return a[0]*b[0] + a[1]*b[1] + a[2]*b[2]; }
  private static double[] cross(double[] a, double[] b) {
    return new double[] {a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2], a[0]*b[1]-a[1]*b[0]};
  }
  private static double angle(double[] a, double[] b) {
    double[] c = cross(a, b);
    return Math.atan2(Math.sqrt(dot(c, c)), dot(a, b));
  }

  public static Value Rad(Value n, Value d) { return out(deg(i(n), i(d))); }

  public static Value Gc(Value x1, Value y1, Value d1, Value x2, Value y2, Value d2) {
    return out(angle(vec(deg(i(x1), i(d1)), deg(i(y1), i(d1))), vec(deg(i(x2), i(d2)), deg(i(y2), i(d2)))));
  }

  public static Value Mer(Value x, Value y, Value d, Value lng, Value lat1, Value lat2) {
    double l = deg(i(lng), i(d)), a1 = deg(i(lat1), i(d)), a2 = deg(i(lat2), i(d));
    double[] p = vec(deg(i(x), i(d)), deg(i(y), i(d)));
    double best = Math.min(angle(p, vec(l, a1)), angle(p, vec(l, a2)));
    // foot of the perpendicular on the great circle of the meridian
    double[] n = {-Math.sin(l), Math.cos(l), 0};
    double s = dot(p, n);
    double[] f = {p[0] - s*n[0], p[1] - s*n[1], p[2] - s*n[2]};
    double out = f[0] * Math.cos(l) + f[1] * Math.sin(l);   // component towards the meridian itself
    if (out > 0) {
      double lat = Math.atan2(f[2], out);
      if (lat >= a1 && lat <= a2) best = Math.min(best, angle(p, vec(l, lat)));
    }
    return out(best);
  }
}

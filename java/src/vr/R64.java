package vr;

import java.io.*;
import java.util.*;
import tlc2.overrides.*;
import tlc2.value.impl.*;

/**
 * IEEE-754 double arithmetic for TLC (module R64) and a thread-safe JSON-lines
 * sink (module VEmit).  A number is a TLA+ string holding its decimal
 * representation ("0.5", "-1e-3", "NaN", "Infinity"), or a TLA+ integer.
 * Every operator is total: a string that is not a number behaves as NaN in
 * arithmetic, and is never "close" to anything.
 */
public class R64 implements ITLCOverrides {
  public Class[] get() { return new Class[] { R64.class }; }

  // ---- conversion ------------------------------------------------------
  private static final int CS = 1 << 16;
  private static final class Ent { final String s; final double d; Ent(String s, double d) { this.s = s; this.d = d; } }
  private static final Ent[] cache = new Ent[CS];

  private static double parse(String s) {
    final int h = (s.hashCode() * 0x9E3779B9) >>> 16;
    final Ent e = cache[h & (CS - 1)];
    if (e != null && e.s.equals(s)) return e.d;
    double d;
    switch (s) {
      case "nan": case "NaN": d = Double.NaN; break;
      case "inf": case "Infinity": d = Double.POSITIVE_INFINITY; break;
      case "-inf": case "-Infinity": d = Double.NEGATIVE_INFINITY; break;
      default:
        try { d = Double.parseDouble(s); } catch (NumberFormatException x) { d = Double.NaN; }
    }
    cache[h & (CS - 1)] = new Ent(s, d);
    return d;
  }
  private static boolean isNum(Value v) {
    if (v instanceof IntValue) return true;
    if (!(v instanceof StringValue)) return false;
    final String s = ((StringValue) v).val.toString();
    switch (s) { case "nan": case "NaN": case "inf": case "Infinity": case "-inf": case "-Infinity": return true; }
    try { Double.parseDouble(s); return true; } catch (NumberFormatException x) { return false; }
  }
  private static double d(Value v) {
    if (v instanceof IntValue) return ((IntValue) v).val;
    if (v instanceof StringValue) return parse(((StringValue) v).val.toString());
    return Double.NaN;
  }
  private static Value r(double x) { return new StringValue(Double.toString(x)); }
  private static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

  // ---- arithmetic ------------------------------------------------------
  @TLAPlusOperator(identifier = "RNum", module = "R64", warn = false)
  public static Value rnum(final Value a) { return r(d(a)); }
  @TLAPlusOperator(identifier = "RIsNum", module = "R64", warn = false)
  public static Value risnum(final Value a) { return b(isNum(a)); }
  @TLAPlusOperator(identifier = "RAdd", module = "R64", warn = false)
  public static Value radd(final Value a, final Value c) { return r(d(a) + d(c)); }
  @TLAPlusOperator(identifier = "RSub", module = "R64", warn = false)
  public static Value rsub(final Value a, final Value c) { return r(d(a) - d(c)); }
  @TLAPlusOperator(identifier = "RMul", module = "R64", warn = false)
  public static Value rmul(final Value a, final Value c) { return r(d(a) * d(c)); }
  @TLAPlusOperator(identifier = "RDiv", module = "R64", warn = false)
  public static Value rdiv(final Value a, final Value c) { return r(d(a) / d(c)); }
  @TLAPlusOperator(identifier = "RPow", module = "R64", warn = false)
  public static Value rpow(final Value a, final Value c) { return r(Math.pow(d(a), d(c))); }
  /** Python/numpy floored modulo. */
  @TLAPlusOperator(identifier = "RMod", module = "R64", warn = false)
  public static Value rmod(final Value a, final Value c) {
    final double y = d(c); double m = d(a) % y;
    if (m != 0 && ((m < 0) != (y < 0))) m += y;
    return r(m);
  }
  @TLAPlusOperator(identifier = "RNeg", module = "R64", warn = false)
  public static Value rneg(final Value a) { return r(-d(a)); }
  @TLAPlusOperator(identifier = "RAbs", module = "R64", warn = false)
  public static Value rabs(final Value a) { return r(Math.abs(d(a))); }
  @TLAPlusOperator(identifier = "RSqrt", module = "R64", warn = false)
  public static Value rsqrt(final Value a) { return r(Math.sqrt(d(a))); }
  @TLAPlusOperator(identifier = "RExp", module = "R64", warn = false)
  public static Value rexp(final Value a) { return r(Math.exp(d(a))); }
  @TLAPlusOperator(identifier = "RExpm1", module = "R64", warn = false)
  public static Value rexpm1(final Value a) { return r(Math.expm1(d(a))); }
  @TLAPlusOperator(identifier = "RLog", module = "R64", warn = false)
  public static Value rlog(final Value a) { return r(Math.log(d(a))); }
  @TLAPlusOperator(identifier = "RLog10", module = "R64", warn = false)
  public static Value rlog10(final Value a) { return r(Math.log10(d(a))); }
  @TLAPlusOperator(identifier = "RSin", module = "R64", warn = false)
  public static Value rsin(final Value a) { return r(Math.sin(d(a))); }
  @TLAPlusOperator(identifier = "RCos", module = "R64", warn = false)
  public static Value rcos(final Value a) { return r(Math.cos(d(a))); }
  @TLAPlusOperator(identifier = "RTan", module = "R64", warn = false)
  public static Value rtan(final Value a) { return r(Math.tan(d(a))); }
  @TLAPlusOperator(identifier = "RAsin", module = "R64", warn = false)
  public static Value rasin(final Value a) { return r(Math.asin(d(a))); }
  @TLAPlusOperator(identifier = "RAcos", module = "R64", warn = false)
  public static Value racos(final Value a) { return r(Math.acos(d(a))); }
  @TLAPlusOperator(identifier = "RAtan", module = "R64", warn = false)
  public static Value ratan(final Value a) { return r(Math.atan(d(a))); }
  @TLAPlusOperator(identifier = "RAtan2", module = "R64", warn = false)
  public static Value ratan2(final Value y, final Value x) { return r(Math.atan2(d(y), d(x))); }
  @TLAPlusOperator(identifier = "RFloor", module = "R64", warn = false)
  public static Value rfloor(final Value a) { return r(Math.floor(d(a))); }
  @TLAPlusOperator(identifier = "RCeil", module = "R64", warn = false)
  public static Value rceil(final Value a) { return r(Math.ceil(d(a))); }
  /** Round half to even. */
  @TLAPlusOperator(identifier = "RRint", module = "R64", warn = false)
  public static Value rrint(final Value a) { return r(Math.rint(d(a))); }
  @TLAPlusOperator(identifier = "RSign", module = "R64", warn = false)
  public static Value rsign(final Value a) { return r(Math.signum(d(a))); }
  /** NaN-propagating maximum / minimum (numpy maximum/minimum). */
  @TLAPlusOperator(identifier = "RMax", module = "R64", warn = false)
  public static Value rmax(final Value a, final Value c) { return r(Math.max(d(a), d(c))); }
  @TLAPlusOperator(identifier = "RMin", module = "R64", warn = false)
  public static Value rmin(final Value a, final Value c) { return r(Math.min(d(a), d(c))); }
  /** NaN-ignoring maximum / minimum (numpy fmax/fmin). */
  @TLAPlusOperator(identifier = "RFmax", module = "R64", warn = false)
  public static Value rfmax(final Value a, final Value c) {
    final double x = d(a), y = d(c);
    return r(Double.isNaN(x) ? y : Double.isNaN(y) ? x : Math.max(x, y));
  }
  @TLAPlusOperator(identifier = "RFmin", module = "R64", warn = false)
  public static Value rfmin(final Value a, final Value c) {
    final double x = d(a), y = d(c);
    return r(Double.isNaN(x) ? y : Double.isNaN(y) ? x : Math.min(x, y));
  }
  /** Error function (series, or continued fraction of erfc). */
  @TLAPlusOperator(identifier = "RErf", module = "R64", warn = false)
  public static Value rerf(final Value a) {
    final double x = d(a), z = Math.abs(x);
    if (Double.isNaN(x)) return r(Double.NaN);
    if (z > 6) return r(Math.signum(x));
    double v;
    if (z < 2.5) {
      double t = z, sum = z;
      for (int n = 1; n < 200; n++) {
        t *= -z * z / n;
        sum += t / (2 * n + 1);
        if (Math.abs(t) < 1e-18) break;
      }
      v = 2 / Math.sqrt(Math.PI) * sum;
    } else {
      double f = 0;
      for (int k = 200; k >= 1; k--) f = (k / 2.0) / (z + f);
      v = 1 - Math.exp(-z * z) / Math.sqrt(Math.PI) / (z + f);
    }
    return r(x < 0 ? -v : v);
  }
  /** Principal branch of the Lambert W function, real argument >= -1/e. */
  @TLAPlusOperator(identifier = "RLambertW", module = "R64", warn = false)
  public static Value rlambertw(final Value a) {
    final double x = d(a);
    if (Double.isNaN(x) || x < -1 / Math.E) return r(Double.NaN);
    if (x == 0) return r(0.0);
    if (Double.isInfinite(x)) return r(x);
    double w = x < 1 ? (x > -0.3 ? x * (1 - x + 1.5 * x * x) : -1 + Math.sqrt(2 * (Math.E * x + 1)))
                     : Math.log(x) - (x > Math.E ? Math.log(Math.log(x)) : 0);
    if (x < 1 && x > -0.3) w = Math.log1p(x);
    for (int i = 0; i < 100; i++) {
      final double ew = Math.exp(w), f = w * ew - x;
      final double den = ew * (w + 1) - (w + 2) * f / (2 * w + 2);
      final double dw = f / den;
      if (Double.isNaN(dw)) break;
      w -= dw;
      if (Math.abs(dw) <= 1e-15 * (1 + Math.abs(w))) break;
    }
    return r(w);
  }

  // ---- predicates ------------------------------------------------------
  @TLAPlusOperator(identifier = "RLt", module = "R64", warn = false)
  public static Value rlt(final Value a, final Value c) { return b(d(a) < d(c)); }
  @TLAPlusOperator(identifier = "RLe", module = "R64", warn = false)
  public static Value rle(final Value a, final Value c) { return b(d(a) <= d(c)); }
  @TLAPlusOperator(identifier = "REq", module = "R64", warn = false)
  public static Value req(final Value a, final Value c) { return b(d(a) == d(c)); }
  @TLAPlusOperator(identifier = "RIsNaN", module = "R64", warn = false)
  public static Value risnan(final Value a) { return b(Double.isNaN(d(a))); }
  @TLAPlusOperator(identifier = "RIsFinite", module = "R64", warn = false)
  public static Value risfin(final Value a) { return b(Double.isFinite(d(a))); }

  private static boolean close(Value a, Value c, double rtol, double atol) {
    if (!isNum(a) || !isNum(c)) return false;
    final double x = d(a), y = d(c);
    if (Double.isNaN(x) || Double.isNaN(y)) return Double.isNaN(x) && Double.isNaN(y);
    if (x == y) return true;
    if (Double.isInfinite(x) || Double.isInfinite(y)) return false;
    return Math.abs(x - y) <= atol + rtol * Math.max(Math.abs(x), Math.abs(y));
  }
  /** NaN is close to NaN; infinities only to themselves. */
  @TLAPlusOperator(identifier = "RClose", module = "R64", warn = false)
  public static Value rclose(final Value a, final Value c, final Value rtol, final Value atol) {
    return b(close(a, c, d(rtol), d(atol)));
  }
  private static Value[] elems(Value v) {
    final Value t = v.toTuple();
    if (t == null) return null;
    return ((TupleValue) t).elems;
  }
  @TLAPlusOperator(identifier = "RSeqClose", module = "R64", warn = false)
  public static Value rseqclose(final Value a, final Value c, final Value rtol, final Value atol) {
    final Value[] x = elems(a), y = elems(c);
    if (x == null || y == null || x.length != y.length) return b(false);
    final double rt = d(rtol), at = d(atol);
    for (int i = 0; i < x.length; i++) if (!close(x[i], y[i], rt, at)) return b(false);
    return b(true);
  }
  @TLAPlusOperator(identifier = "RSum", module = "R64", warn = false)
  public static Value rsum(final Value a) {
    double s = 0; for (Value v : elems(a)) s += d(v); return r(s);
  }
  @TLAPlusOperator(identifier = "RToInt", module = "R64", warn = false)
  public static Value rtoint(final Value a) {
    final double x = d(a);
    if (Double.isNaN(x) || Math.abs(x) > 2e9) return IntValue.gen(Integer.MIN_VALUE + 1);
    return IntValue.gen((int) x);
  }

  // ---- strings ---------------------------------------------------------
  @TLAPlusOperator(identifier = "SOfInt", module = "R64", warn = false)
  public static Value sofint(final Value a) { return new StringValue(Integer.toString(((IntValue) a).val)); }
  @TLAPlusOperator(identifier = "SPad", module = "R64", warn = false)
  public static Value spad(final Value a, final Value w) {
    final StringBuilder s = new StringBuilder(Integer.toString(((IntValue) a).val));
    while (s.length() < ((IntValue) w).val) s.insert(0, '0');
    return new StringValue(s.toString());
  }
  @TLAPlusOperator(identifier = "SLower", module = "R64", warn = false)
  public static Value slower(final Value a) { return new StringValue(((StringValue) a).val.toString().toLowerCase(Locale.ROOT)); }
  @TLAPlusOperator(identifier = "SFix", module = "R64", warn = false)
  public static Value sfix(final Value a, final Value k) {
    return new StringValue(new java.math.BigDecimal(d(a)).setScale(((IntValue) k).val, java.math.RoundingMode.HALF_EVEN).toPlainString());
  }
  @TLAPlusOperator(identifier = "STrim", module = "R64", warn = false)
  public static Value strim(final Value a) { return new StringValue(((StringValue) a).val.toString().trim()); }
  @TLAPlusOperator(identifier = "SStarts", module = "R64", warn = false)
  public static Value sstarts(final Value a, final Value p) {
    return b(((StringValue) a).val.toString().startsWith(((StringValue) p).val.toString()));
  }
  @TLAPlusOperator(identifier = "SContains", module = "R64", warn = false)
  public static Value scontains(final Value a, final Value p) {
    return b(((StringValue) a).val.toString().contains(((StringValue) p).val.toString()));
  }
  @TLAPlusOperator(identifier = "SReplace", module = "R64", warn = false)
  public static Value sreplace(final Value a, final Value p, final Value q) {
    return new StringValue(((StringValue) a).val.toString().replace(((StringValue) p).val.toString(), ((StringValue) q).val.toString()));
  }
  @TLAPlusOperator(identifier = "SSub", module = "R64", warn = false)
  public static Value ssub(final Value a, final Value i, final Value j) {
    final String s = ((StringValue) a).val.toString();
    final int x = Math.max(0, ((IntValue) i).val), y = Math.min(s.length(), ((IntValue) j).val);
    return new StringValue(x < y ? s.substring(x, y) : "");
  }

  // ---- JSON sink -------------------------------------------------------
  private static final Map<String, PrintWriter> sinks = new HashMap<>();
  private static void json(StringBuilder o, Object v) {
    if (v instanceof StringValue) {
      o.append('"');
      final String s = ((StringValue) v).val.toString();
      for (int i = 0; i < s.length(); i++) {
        final char c = s.charAt(i);
        if (c == '"' || c == '\\') o.append('\\').append(c);
        else if (c < 32) o.append(String.format("\\u%04x", (int) c));
        else o.append(c);
      }
      o.append('"');
    } else if (v instanceof IntValue) o.append(((IntValue) v).val);
    else if (v instanceof BoolValue) o.append(((BoolValue) v).val);
    else if (v instanceof RecordValue || (v instanceof FcnRcdValue && ((Value) v).toTuple() == null)) {
      final Value rv = (Value) v;
      final FcnRcdValue f = v instanceof RecordValue ? (FcnRcdValue) rv.toFcnRcd() : (FcnRcdValue) v;
      o.append('{');
      final Value[] dom = f.getDomainAsValues();
      for (int i = 0; i < dom.length; i++) {
        if (i > 0) o.append(',');
        if (dom[i] instanceof StringValue) json(o, dom[i]);
        else o.append('"').append(dom[i].toString().replace("\"", "'")).append('"');
        o.append(':'); json(o, f.values[i]);
      }
      o.append('}');
    } else {
      Value[] es = elems((Value) v);
      if (es == null) {
        final Value se = ((Value) v).toSetEnum();
        if (se != null) { se.normalize(); final ValueVec vv = ((SetEnumValue) se).elems; es = new Value[vv.size()];
          for (int i = 0; i < es.length; i++) es[i] = vv.elementAt(i); }
      }
      if (es == null) {
        final Value f = ((Value) v).toFcnRcd();
        if (f != null && f != v) { json(o, f); return; }
        o.append('"').append(v.toString().replace("\"", "'")).append('"'); return;
      }
      o.append('[');
      for (int i = 0; i < es.length; i++) { if (i > 0) o.append(','); json(o, es[i]); }
      o.append(']');
    }
  }
  @TLAPlusOperator(identifier = "VEmit", module = "R64", warn = false)
  public static Value vemit(final Value file, final Value v) throws IOException {
    final StringBuilder o = new StringBuilder(); json(o, v); o.append('\n');
    synchronized (sinks) {
      final String f = ((StringValue) file).val.toString();
      PrintWriter w = sinks.get(f);
      if (w == null) {
        final PrintWriter nw = new PrintWriter(new BufferedWriter(new OutputStreamWriter(new FileOutputStream(f, true), "UTF-8")));
        sinks.put(f, nw); w = nw;
        Runtime.getRuntime().addShutdownHook(new Thread(() -> { synchronized (sinks) { nw.close(); } }));
      }
      w.write(o.toString());
    }
    return BoolValue.ValTrue;
  }
}

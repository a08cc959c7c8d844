import tlc2.value.impl.*;

/** TLC override of module Num: decimal strings are IEEE-754 doubles, integers stay integers. */
public class Num {
    private static double d(Value v) {
        if (v instanceof IntValue) return ((IntValue) v).val;
        if (v instanceof StringValue) return Double.parseDouble(((StringValue) v).val.toString());
        throw new RuntimeException("Num: not a number: " + v);
    }
    private static boolean ii(Value a, Value b) {
        return a instanceof IntValue && b instanceof IntValue;
    }
    private static int i(Value a) {
        return ((IntValue) a).val;
    }
    private static Value s(double x) {
        if (x == 0) x = 0.0;
        return new StringValue(Double.toString(x));
    }
    private static Value b(boolean x) {
        return x ? BoolValue.ValTrue : BoolValue.ValFalse;
    }
    private static Value[] seq(Value v) {
        TupleValue t = (TupleValue) v.toTuple();
        if (t == null) throw new RuntimeException("Num: not a sequence: " + v);
        return t.elems;
    }

    public static Value NAdd(Value a, Value b) {
        return ii(a, b) ? IntValue.gen(Math.addExact(i(a), i(b))) : s(d(a) + d(b));
    }
    public static Value NSub(Value a, Value b) {
        return ii(a, b) ? IntValue.gen(Math.subtractExact(i(a), i(b))) : s(d(a) - d(b));
    }
    public static Value NMul(Value a, Value b) {
        return ii(a, b) ? IntValue.gen(Math.multiplyExact(i(a), i(b))) : s(d(a) * d(b));
    }
    public static Value NDiv(Value a, Value b) {
        return ii(a, b) ? IntValue.gen(Math.floorDiv(i(a), i(b))) : s(d(a) / d(b));
    }
    public static Value NNeg(Value a) {
        return a instanceof IntValue ? IntValue.gen(-i(a)) : s(-d(a));
    }
    public static Value NAbs(Value a) {
        return a instanceof IntValue ? IntValue.gen(Math.abs(i(a))) : s(Math.abs(d(a)));
    }
    public static Value NMin(Value a, Value b) {
        return ii(a, b) ? IntValue.gen(Math.min(i(a), i(b))) : s(Math.min(d(a), d(b)));
    }
    public static Value NMax(Value a, Value b) {
        return ii(a, b) ? IntValue.gen(Math.max(i(a), i(b))) : s(Math.max(d(a), d(b)));
    }
    public static Value NLeq(Value a, Value b) {
        return ii(a, b) ? b(i(a) <= i(b)) : b(d(a) <= d(b));
    }
    public static Value NLt(Value a, Value b) {
        return ii(a, b) ? b(i(a) < i(b)) : b(d(a) < d(b));
    }
    public static Value NClose(Value a, Value b, Value tol) {
        if (ii(a, b)) return b(i(a) == i(b));
        double x = d(a), y = d(b), t = d(tol);
        if (Double.isNaN(x) || Double.isNaN(y)) return b(Double.isNaN(x) && Double.isNaN(y));
        if (x == y) return b(true);
        return b(Math.abs(x - y) <= t * Math.max(1.0, Math.max(Math.abs(x), Math.abs(y))));
    }
    public static Value NLeqT(Value a, Value b, Value tol) {
        if (ii(a, b)) return b(i(a) <= i(b));
        double x = d(a), y = d(b), t = d(tol);
        return b(x <= y + t * Math.max(1.0, Math.max(Math.abs(x), Math.abs(y))));
    }
    public static Value NSum(Value v) {
        Value[] e = seq(v);
        boolean ints = true;
        double t = 0;
        int n = 0;
        for (Value x : e) {
            if (x instanceof IntValue) n += i(x); else ints = false;
            t += d(x);
        }
        return ints ? IntValue.gen(n) : s(t);
    }
    public static Value NDot(Value v, Value w) {
        Value[] e = seq(v), f = seq(w);
        boolean ints = true;
        double t = 0;
        int n = 0;
        for (int k = 0; k < e.length; k++) {
            if (e[k] instanceof IntValue && f[k] instanceof IntValue) n += i(e[k]) * i(f[k]); else ints = false;
            t += d(e[k]) * d(f[k]);
        }
        return ints ? IntValue.gen(n) : s(t);
    }
    public static Value NExp(Value a) { return s(Math.exp(d(a))); }
    public static Value NLog(Value a) { return s(Math.log(d(a))); }
    public static Value NPow(Value a, Value b) { return s(Math.pow(d(a), d(b))); }
    public static Value NTanh(Value a) { return s(Math.tanh(d(a))); }
    public static Value NSin(Value a) { return s(Math.sin(d(a))); }
    public static Value NCos(Value a) { return s(Math.cos(d(a))); }
    public static Value NAtan(Value a) { return s(Math.atan(d(a))); }
    public static Value NFloor(Value a) { return s(Math.floor(d(a))); }
    public static Value NCeil(Value a) { return s(Math.ceil(d(a))); }
    public static Value NF32(Value a) { return s((double) (float) d(a)); }
    public static Value NIsNaN(Value a) { return b(Double.isNaN(d(a))); }
    public static Value NFinite(Value a) { double x = d(a); return b(!Double.isNaN(x) && !Double.isInfinite(x)); }
    public static Value NOfInt(Value a) { return a; }
    public static Value NToInt(Value a) {
        return a instanceof IntValue ? a : IntValue.gen((int) Math.round(d(a)));
    }
}

import java.io.*;
import java.math.*;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;
import util.UniqueString;

/** Java side of Num.tla: decimal arithmetic, the trace loader and the verdict printer. */
public class NumOps {
    static final MathContext MC = NumValue.MC;

    static NumValue n(Value x) {
        if (x instanceof NumValue) return (NumValue) x;
        if (x instanceof IntValue) return NumValue.of(new BigDecimal(((IntValue) x).val));
        throw new RuntimeException("not a number: " + x);
    }
    static BigDecimal b(Value x) { return n(x).v; }
    static NumValue d(double x) { return NumValue.of(x); }
    static BoolValue bool(boolean t) { return t ? BoolValue.ValTrue : BoolValue.ValFalse; }

    @TLAPlusOperator(identifier = "NPlus", module = "Num", warn = false)
    public static Value plus(Value x, Value y) {
        NumValue a = n(x), c = n(y);
        return a.v != null && c.v != null ? NumValue.of(a.v.add(c.v, MC)) : d(a.dbl() + c.dbl());
    }
    @TLAPlusOperator(identifier = "NMinus", module = "Num", warn = false)
    public static Value minus(Value x, Value y) {
        NumValue a = n(x), c = n(y);
        return a.v != null && c.v != null ? NumValue.of(a.v.subtract(c.v, MC)) : d(a.dbl() - c.dbl());
    }
    @TLAPlusOperator(identifier = "NTimes", module = "Num", warn = false)
    public static Value times(Value x, Value y) {
        NumValue a = n(x), c = n(y);
        return a.v != null && c.v != null ? NumValue.of(a.v.multiply(c.v, MC)) : d(a.dbl() * c.dbl());
    }
    @TLAPlusOperator(identifier = "NOver", module = "Num", warn = false)
    public static Value over(Value x, Value y) {
        NumValue a = n(x), c = n(y);
        return a.v != null && c.v != null && c.v.signum() != 0 ? NumValue.of(a.v.divide(c.v, MC)) : d(a.dbl() / c.dbl());
    }
    @TLAPlusOperator(identifier = "NLt", module = "Num", warn = false)
    public static Value lt(Value x, Value y) {
        NumValue a = n(x), c = n(y);
        return bool(a.v != null && c.v != null ? a.v.compareTo(c.v) < 0 : a.dbl() < c.dbl());
    }
    @TLAPlusOperator(identifier = "NLe", module = "Num", warn = false)
    public static Value le(Value x, Value y) {
        NumValue a = n(x), c = n(y);
        return bool(a.v != null && c.v != null ? a.v.compareTo(c.v) <= 0 : a.dbl() <= c.dbl());
    }
    @TLAPlusOperator(identifier = "NEq", module = "Num", warn = false)
    public static Value eq(Value x, Value y) {
        NumValue a = n(x), c = n(y);
        return bool(a.v != null && c.v != null ? a.v.compareTo(c.v) == 0 : a.dbl() == c.dbl());
    }
    @TLAPlusOperator(identifier = "NAbs", module = "Num", warn = false)
    public static Value abs(Value x) { NumValue a = n(x); return a.v != null ? NumValue.of(a.v.abs()) : d(Math.abs(a.dbl())); }
    @TLAPlusOperator(identifier = "IsNaN", module = "Num", warn = false)
    public static Value isnan(Value x) { return bool(n(x).isNaN()); }
    @TLAPlusOperator(identifier = "IsFin", module = "Num", warn = false)
    public static Value isfin(Value x) { return bool(n(x).v != null); }
    @TLAPlusOperator(identifier = "IsNum", module = "Num", warn = false)
    public static Value isnum(Value x) { return bool(x instanceof NumValue || x instanceof IntValue); }
    @TLAPlusOperator(identifier = "IsText", module = "Num", warn = false)
    public static Value istext(Value x) { return bool(x instanceof StringValue); }
    @TLAPlusOperator(identifier = "IsArray", module = "Num", warn = false)
    public static Value isarray(Value x) { return bool(x instanceof TupleValue || (x instanceof FcnRcdValue && x.toTuple() != null) || (x instanceof FcnLambdaValue && x.toTuple() != null)); }
    @TLAPlusOperator(identifier = "Dec", module = "Num", warn = false)
    public static Value dec(Value s) { return parse(((StringValue) s).val.toString()); }
    static NumValue parse(String t) {
        if (t.equals("nan")) return NumValue.NAN;
        if (t.equals("inf")) return NumValue.PINF;
        if (t.equals("-inf")) return NumValue.NINF;
        return NumValue.of(new BigDecimal(t));
    }
    /** Integer part towards minus infinity, as an integer of TLA+. */
    @TLAPlusOperator(identifier = "NFloor", module = "Num", warn = false)
    public static Value floor(Value x) { return IntValue.gen(b(x).setScale(0, RoundingMode.FLOOR).intValueExact()); }
    /** Nearest integer, halves to the even one (as numpy rounds). */
    @TLAPlusOperator(identifier = "NRound", module = "Num", warn = false)
    public static Value round(Value x) { return IntValue.gen(b(x).setScale(0, RoundingMode.HALF_EVEN).intValueExact()); }

    @TLAPlusOperator(identifier = "Sqrt", module = "Num", warn = false)
    public static Value sqrt(Value x) {
        NumValue a = n(x);
        return a.v != null && a.v.signum() >= 0 ? NumValue.of(a.v.sqrt(MC)) : d(Math.sqrt(a.dbl()));
    }
    static final BigDecimal TWO = BigDecimal.valueOf(2);
    static BigDecimal bexp(BigDecimal x) {
        if (x.signum() == 0) return BigDecimal.ONE;
        MathContext mc = new MathContext(48);
        int k = 0;
        double mag = Math.abs(x.doubleValue());
        while (mag > 0.05) { mag /= 2; k++; }
        BigDecimal y = x.divide(new BigDecimal(BigInteger.ONE.shiftLeft(k)), mc);
        BigDecimal term = BigDecimal.ONE, sum = BigDecimal.ONE;
        for (int i = 1; i < 60; i++) {
            term = term.multiply(y, mc).divide(BigDecimal.valueOf(i), mc);
            sum = sum.add(term, mc);
            if (term.signum() == 0 || term.precision() - term.scale() < -48) break;
        }
        for (int i = 0; i < k; i++) sum = sum.multiply(sum, mc);
        return sum.round(MC);
    }
    @TLAPlusOperator(identifier = "Exp", module = "Num", warn = false)
    public static Value exp(Value x) {
        NumValue a = n(x);
        if (a.v == null || Math.abs(a.v.doubleValue()) > 5000) return d(Math.exp(a.dbl()));
        return NumValue.of(bexp(a.v));
    }
    @TLAPlusOperator(identifier = "Ln", module = "Num", warn = false)
    public static Value ln(Value x) {
        NumValue a = n(x);
        if (a.v == null || a.v.signum() <= 0) return d(Math.log(a.dbl()));
        BigDecimal y = new BigDecimal(Math.log(a.v.doubleValue()));
        for (int i = 0; i < 3; i++) {           // y += 2 (x - e^y) / (x + e^y)
            BigDecimal e = bexp(y);
            y = y.add(TWO.multiply(a.v.subtract(e, MC), MC).divide(a.v.add(e, MC), MC), MC);
        }
        return NumValue.of(y);
    }
    static final BigDecimal PI = new BigDecimal("3.14159265358979323846264338327950288419716939937510");
    @TLAPlusOperator(identifier = "Pi", module = "Num", warn = false)
    public static Value pi() { return NumValue.of(PI); }
    static BigDecimal bsin(BigDecimal x) {
        MathContext mc = new MathContext(48);
        BigDecimal twopi = PI.multiply(TWO);
        x = x.subtract(x.divide(twopi, 0, RoundingMode.HALF_EVEN).multiply(twopi), mc);
        BigDecimal x2 = x.multiply(x, mc), term = x, sum = x;
        for (int i = 1; i < 60; i++) {
            term = term.multiply(x2, mc).divide(BigDecimal.valueOf((2L * i) * (2L * i + 1)), mc).negate();
            sum = sum.add(term, mc);
        }
        return sum.round(MC);
    }
    @TLAPlusOperator(identifier = "Sin", module = "Num", warn = false)
    public static Value sin(Value x) { NumValue a = n(x); return a.v == null ? NumValue.NAN : NumValue.of(bsin(a.v)); }
    @TLAPlusOperator(identifier = "Cos", module = "Num", warn = false)
    public static Value cos(Value x) { NumValue a = n(x); return a.v == null ? NumValue.NAN : NumValue.of(bsin(a.v.add(PI.divide(TWO), MC))); }

    // -- sequences -------------------------------------------------------------------------------
    static Value[] seq(Value s) {
        TupleValue t = (TupleValue) s.toTuple();
        if (t == null) throw new RuntimeException("not a sequence: " + s);
        return t.elems;
    }
    @TLAPlusOperator(identifier = "SumSeq", module = "Num", warn = false)
    public static Value sum(Value s) {
        Value r = NumValue.of(BigDecimal.ZERO);
        for (Value e : seq(s)) r = plus(r, e);
        return r;
    }
    @TLAPlusOperator(identifier = "Dot", module = "Num", warn = false)
    public static Value dot(Value x, Value y) {
        Value[] a = seq(x), c = seq(y);
        if (a.length != c.length) throw new RuntimeException("dot of lengths " + a.length + " and " + c.length);
        Value r = NumValue.of(BigDecimal.ZERO);
        for (int i = 0; i < a.length; i++) r = plus(r, times(a[i], c[i]));
        return r;
    }
    /** The X (sequence of rows) with A X = B, by elimination with pivoting; all NaN if A is singular. */
    @TLAPlusOperator(identifier = "Solve", module = "Num", warn = false)
    public static Value solve(Value av, Value bv) {
        Value[] ar = seq(av), br = seq(bv);
        int m = ar.length;
        BigDecimal[][] w = new BigDecimal[m][];
        int c = m == 0 ? 0 : seq(br[0]).length;
        MathContext mc = new MathContext(60);
        boolean bad = false;
        for (int i = 0; i < m; i++) {
            Value[] r = seq(ar[i]), q = seq(br[i]);
            w[i] = new BigDecimal[m + c];
            for (int j = 0; j < m + c; j++) {
                w[i][j] = b(j < m ? r[j] : q[j - m]);
                if (w[i][j] == null) bad = true;
            }
        }
        BigDecimal scale = BigDecimal.ZERO;
        if (!bad) for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) scale = scale.max(w[i][j].abs());
        BigDecimal tiny = scale.multiply(new BigDecimal("1e-30"), mc);
        for (int k = 0; k < m && !bad; k++) {
            int p = k;
            for (int i = k + 1; i < m; i++) if (w[i][k].abs().compareTo(w[p][k].abs()) > 0) p = i;
            if (w[p][k].abs().compareTo(tiny) <= 0) { bad = true; break; }
            BigDecimal[] t = w[p]; w[p] = w[k]; w[k] = t;
            for (int i = 0; i < m; i++) if (i != k && w[i][k].signum() != 0) {
                BigDecimal f = w[i][k].divide(w[k][k], mc);
                for (int j = k; j < m + c; j++) w[i][j] = w[i][j].subtract(f.multiply(w[k][j], mc), mc);
            }
        }
        Value[] out = new Value[m];
        for (int i = 0; i < m; i++) {
            Value[] r = new Value[c];
            for (int j = 0; j < c; j++) r[j] = bad ? NumValue.NAN : NumValue.of(w[i][m + j].divide(w[i][i], MC));
            out[i] = new TupleValue(r);
        }
        return new TupleValue(out);
    }
    /** Indices sorting the sequence ascending, ties in order, NaN last. */
    @TLAPlusOperator(identifier = "ArgSort", module = "Num", warn = false)
    public static Value argsort(Value s) {
        final Value[] a = seq(s);
        Integer[] ix = new Integer[a.length];
        for (int i = 0; i < ix.length; i++) ix[i] = i;
        Arrays.sort(ix, (p, q) -> n(a[p]).compareTo(n(a[q])));
        Value[] r = new Value[ix.length];
        for (int i = 0; i < ix.length; i++) r[i] = IntValue.gen(ix[i] + 1);
        return new TupleValue(r);
    }

    // -- loading and printing --------------------------------------------------------------------
    static final Map<String, Value> LOADED = new HashMap<>();
    @TLAPlusOperator(identifier = "Load", module = "Num", warn = false)
    public static synchronized Value load(Value name) throws IOException {
        String key = ((StringValue) name).val.toString();
        Value v = LOADED.get(key);
        if (v == null) {
            String p = System.getProperty("verif." + key);
            v = new Parser(new String(Files.readAllBytes(Paths.get(p)), StandardCharsets.UTF_8)).top();
            LOADED.put(key, v);
        }
        return v;
    }
    @TLAPlusOperator(identifier = "Param", module = "Num", warn = false)
    public static Value param(Value name) { return IntValue.gen(Integer.getInteger("verif." + ((StringValue) name).val, 0)); }

    static final StringBuilder Q = new StringBuilder();
    @TLAPlusOperator(identifier = "Emit", module = "Num", warn = false)
    public static Value emit(Value tag, Value v) {
        StringBuilder sb = new StringBuilder();
        json(v, sb);
        synchronized (Q) { System.out.println("@@" + ((StringValue) tag).val + " " + sb); }
        return BoolValue.ValTrue;
    }
    static void str(String s, StringBuilder sb) {
        sb.append('"');
        for (char c : s.toCharArray()) {
            if (c == '"' || c == '\\') sb.append('\\').append(c);
            else if (c < 32) sb.append(String.format("\\u%04x", (int) c));
            else sb.append(c);
        }
        sb.append('"');
    }
    static void json(Value v, StringBuilder sb) {
        if (v instanceof StringValue) str(((StringValue) v).val.toString(), sb);
        else if (v instanceof IntValue || v instanceof BoolValue) sb.append(v.toString().toLowerCase());
        else if (v instanceof NumValue) { NumValue x = (NumValue) v; sb.append(x.v == null ? "\"" + x.text() + "\"" : Double.toString(x.dbl())); }
        else if (v instanceof ModelValue) str(v.toString(), sb);
        else if (v instanceof RecordValue) {
            RecordValue r = (RecordValue) v;
            sb.append('{');
            for (int i = 0; i < r.names.length; i++) { if (i > 0) sb.append(','); str(r.names[i].toString(), sb); sb.append(':'); json(r.values[i], sb); }
            sb.append('}');
        } else {
            Value t = v.toTuple();
            if (t instanceof TupleValue) list(((TupleValue) t).elems, sb);
            else {
                Value rr = v.toRcd();
                if (rr != null) { json(rr, sb); return; }
                Value se = v.toSetEnum();
                if (se != null) { se.normalize(); ValueVec vv = ((SetEnumValue) se).elems; Value[] a = new Value[vv.size()]; for (int i = 0; i < a.length; i++) a[i] = vv.elementAt(i); list(a, sb); }
                else {
                    FcnRcdValue f = (FcnRcdValue) v.toFcnRcd();
                    Value[] dom = f.getDomainAsValues();
                    sb.append('{');
                    for (int i = 0; i < dom.length; i++) { if (i > 0) sb.append(','); str(dom[i] instanceof StringValue ? ((StringValue) dom[i]).val.toString() : dom[i].toString(), sb); sb.append(':'); json(f.values[i], sb); }
                    sb.append('}');
                }
            }
        }
    }
    static void list(Value[] a, StringBuilder sb) {
        sb.append('[');
        for (int i = 0; i < a.length; i++) { if (i > 0) sb.append(','); json(a[i], sb); }
        sb.append(']');
    }

    /** JSON with Python's NaN and Infinity; numbers with a point or exponent are read as the double they denote. */
    static class Parser {
        final String s; int p = 0;
        Parser(String s) { this.s = s; }
        Value top() { Value v = val(); ws(); if (p != s.length()) throw err("trailing text"); return v; }
        RuntimeException err(String m) { return new RuntimeException("JSON: " + m + " at " + p); }
        void ws() { while (p < s.length() && s.charAt(p) <= ' ') p++; }
        Value val() {
            ws();
            char c = s.charAt(p);
            if (c == '{') {
                p++;
                ArrayList<UniqueString> ks = new ArrayList<>(); ArrayList<Value> vs = new ArrayList<>();
                ws();
                if (s.charAt(p) == '}') { p++; }
                else while (true) {
                    ws(); ks.add(UniqueString.of(string())); ws();
                    if (s.charAt(p++) != ':') throw err("colon");
                    vs.add(val()); ws();
                    char e = s.charAt(p++);
                    if (e == '}') break;
                    if (e != ',') throw err("comma");
                }
                RecordValue r = new RecordValue(ks.toArray(new UniqueString[0]), vs.toArray(new Value[0]), false);
                r.deepNormalize();
                return r;
            }
            if (c == '[') {
                p++;
                ArrayList<Value> vs = new ArrayList<>();
                ws();
                if (s.charAt(p) == ']') { p++; }
                else while (true) {
                    vs.add(val()); ws();
                    char e = s.charAt(p++);
                    if (e == ']') break;
                    if (e != ',') throw err("comma");
                }
                return new TupleValue(vs.toArray(new Value[0]));
            }
            if (c == '"') return new StringValue(UniqueString.of(string()));
            int q = p;
            while (q < s.length() && ",]} \n\r\t".indexOf(s.charAt(q)) < 0) q++;
            String t = s.substring(p, q);
            p = q;
            switch (t) {
                case "true": return BoolValue.ValTrue;
                case "false": return BoolValue.ValFalse;
                case "null": return new StringValue(UniqueString.of("null"));
                case "NaN": return NumValue.NAN;
                case "Infinity": return NumValue.PINF;
                case "-Infinity": return NumValue.NINF;
            }
            if (t.indexOf('.') < 0 && t.indexOf('e') < 0 && t.indexOf('E') < 0) {
                BigInteger i = new BigInteger(t);
                if (i.bitLength() < 31) return IntValue.gen(i.intValue());
                return NumValue.of(new BigDecimal(i));
            }
            return NumValue.of(Double.parseDouble(t));
        }
        String string() {
            if (s.charAt(p++) != '"') throw err("string");
            StringBuilder sb = new StringBuilder();
            while (true) {
                char c = s.charAt(p++);
                if (c == '"') return sb.toString();
                if (c == '\\') {
                    char e = s.charAt(p++);
                    switch (e) {
                        case 'n': sb.append('\n'); break;
                        case 't': sb.append('\t'); break;
                        case 'r': sb.append('\r'); break;
                        case 'b': sb.append('\b'); break;
                        case 'f': sb.append('\f'); break;
                        case 'u': sb.append((char) Integer.parseInt(s.substring(p, p + 4), 16)); p += 4; break;
                        default: sb.append(e);
                    }
                } else sb.append(c);
            }
        }
    }
}

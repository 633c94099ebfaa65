import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;
import util.UniqueString;
import java.util.*;

/**
 * TLC operator overrides for module WFST: same value as the TLA+ definitions,
 * computed sparsely.  Module MC_WRel checks them against the definitions.
 */
public class WFSTOverrides implements ITLCOverrides {
    @Override
    public Class<?>[] get() { return new Class<?>[]{WFSTOverrides.class}; }

    static final int TINF = 1000000000, UNDEF = -1999999999, RK = 1024, RS = 1048576;
    static final int TROP = 0, INT = 1, BOOL = 2, REAL = 3;

    static int sr(Value v) {
        switch (((StringValue) v).val.toString()) {
            case "trop": return TROP;
            case "int": return INT;
            case "bool": return BOOL;
            case "real": return REAL;
        }
        throw new RuntimeException("unknown semiring " + v);
    }
    static int zero(int s) { return s == TROP ? TINF : 0; }
    static int one(int s) { return s == TROP ? 0 : s == REAL ? RS : 1; }
    static int add(int s, int a, int b) {
        if (a == UNDEF || b == UNDEF) return UNDEF;
        switch (s) {
            case TROP: return Math.min(a, b);
            case BOOL: return Math.max(a, b);
            default: if (a > TINF || b > TINF) return UNDEF; return a + b;
        }
    }
    static int mul(int s, int a, int b) {
        int z = zero(s);
        if (a == z || b == z) return z;
        if (a == UNDEF || b == UNDEF) return UNDEF;
        switch (s) {
            case TROP: return a + b;
            case BOOL: return Math.min(a, b);
            case INT: if (a > 30000 || b > 30000) return UNDEF; return a * b;
            default: {
                int ah = a / RK, al = a % RK, bh = b / RK, bl = b % RK;
                if (ah > 30000 || bh > 30000) return UNDEF;
                return ah * bh + (ah * bl + al * bh) / RK + ((al * bl) / RK) / RK;
            }
        }
    }
    static int star(int s, int a) {
        if (a == UNDEF) return UNDEF;
        switch (s) {
            case TROP: return a >= 0 ? 0 : UNDEF;
            case BOOL: return 1;
            case INT: return a == 0 ? 1 : UNDEF;
            default:
                if (a >= (RS / 32) * 31) return UNDEF;
                int d = RS - a, q = (RS * RK) / d, r = (RS * RK) % d;
                return q * RK + (r * RK) / d;
        }
    }

    static int iv(Value v) { return ((IntValue) v).val; }
    static Value fld(RecordValue r, String name) {
        for (int i = 0; i < r.names.length; i++)
            if (r.names[i].equals(name)) return r.values[i];
        throw new RuntimeException("no field " + name);
    }
    static Value[] seq(Value v) {
        Value t = v.toTuple();
        if (t == null) throw new RuntimeException("not a sequence: " + v);
        return ((TupleValue) t).elems;
    }

    static final class F {
        int s, n; int[] fin; boolean[] isf; int[][][] arcs; // il, ol, w, ns
    }
    static F fst(Value v, int sr) {
        RecordValue r = (RecordValue) v.toRcd();
        F f = new F();
        f.s = iv(fld(r, "s"));
        Value[] fs = seq(fld(r, "f")), as = seq(fld(r, "a"));
        f.n = fs.length;
        f.fin = new int[f.n]; f.isf = new boolean[f.n]; f.arcs = new int[f.n][][];
        for (int q = 0; q < f.n; q++) {
            Value[] w = seq(fs[q]);
            f.isf[q] = w.length > 0;
            f.fin[q] = w.length > 0 ? iv(w[0]) : zero(sr);
            Value[] ts = seq(as[q]);
            f.arcs[q] = new int[ts.length][];
            for (int i = 0; i < ts.length; i++) {
                Value[] t = seq(ts[i]);
                f.arcs[q][i] = new int[]{iv(t[0]), iv(t[1]), iv(t[2]), iv(t[3])};
            }
        }
        return f;
    }

    static final class Key {
        final int[] x, y; final int h;
        Key(int[] x, int[] y) { this.x = x; this.y = y; h = Arrays.hashCode(x) * 31 + Arrays.hashCode(y); }
        public int hashCode() { return h; }
        public boolean equals(Object o) { Key k = (Key) o; return Arrays.equals(x, k.x) && Arrays.equals(y, k.y); }
    }
    static int[] app(int[] x, int a) {
        if (a == 0) return x;
        int[] r = Arrays.copyOf(x, x.length + 1); r[x.length] = a; return r;
    }

    static LinkedHashMap<Key, Integer> rel(F f, int s, int L) {
        LinkedHashMap<Key, Integer> res = new LinkedHashMap<>();
        if (f.s < 0) return res;
        int z = zero(s);
        // useful states
        boolean[] acc = new boolean[f.n], co = new boolean[f.n];
        ArrayDeque<Integer> st = new ArrayDeque<>();
        acc[f.s] = true; st.push(f.s);
        List<List<Integer>> rev = new ArrayList<>();
        for (int q = 0; q < f.n; q++) rev.add(new ArrayList<>());
        for (int q = 0; q < f.n; q++) for (int[] t : f.arcs[q]) rev.get(t[3]).add(q);
        while (!st.isEmpty()) { int q = st.pop(); for (int[] t : f.arcs[q]) if (!acc[t[3]]) { acc[t[3]] = true; st.push(t[3]); } }
        for (int q = 0; q < f.n; q++) if (f.fin[q] != z) { co[q] = true; st.push(q); }
        while (!st.isEmpty()) { int q = st.pop(); for (int p : rev.get(q)) if (!co[p]) { co[p] = true; st.push(p); } }
        int[] id = new int[f.n]; int n = 0; Arrays.fill(id, -1);
        for (int q = 0; q < f.n; q++) if (acc[q] && co[q]) id[q] = n++;
        if (id[f.s] < 0) return res;
        int[] fin = new int[n];
        TreeMap<Long, int[][]> mats = new TreeMap<>();
        int[][] E = new int[n][n];
        for (int[] r : E) Arrays.fill(r, z);
        boolean hasEps = false;
        // aggregated sparse arcs per label pair, excluding eps:eps
        for (int q = 0; q < f.n; q++) {
            if (id[q] < 0) continue;
            fin[id[q]] = f.fin[q];
            for (int[] t : f.arcs[q]) {
                if (id[t[3]] < 0) continue;
                if (t[0] == 0 && t[1] == 0) {
                    hasEps = true;
                    E[id[q]][id[t[3]]] = add(s, E[id[q]][id[t[3]]], t[2]);
                } else {
                    long k = ((long) t[0]) << 32 | t[1];
                    int[][] m = mats.get(k);
                    if (m == null) { m = new int[n][n]; for (int[] r : m) Arrays.fill(r, z); mats.put(k, m); }
                    m[id[q]][id[t[3]]] = add(s, m[id[q]][id[t[3]]], t[2]);
                }
            }
        }
        if (hasEps) {
            for (int k = 0; k < n; k++) {
                int sk = star(s, E[k][k]);
                int[][] N = new int[n][n];
                for (int i = 0; i < n; i++)
                    for (int j = 0; j < n; j++) {
                        if (E[i][k] == z || E[k][j] == z) { N[i][j] = E[i][j]; continue; }
                        N[i][j] = add(s, E[i][j], mul(s, mul(s, E[i][k], sk), E[k][j]));
                    }
                E = N;
            }
            for (int i = 0; i < n; i++) E[i][i] = add(s, one(s), E[i][i]);
        }
        // sparse matrices
        int nm = mats.size(); int mi = 0;
        int[] la = new int[nm], lb = new int[nm];
        int[][] sp = new int[nm][]; // flattened triples
        for (Map.Entry<Long, int[][]> e : mats.entrySet()) {
            la[mi] = (int) (e.getKey() >> 32); lb[mi] = (int) (e.getKey() & 0xffffffffL);
            int c = 0; int[][] m = e.getValue();
            for (int[] r : m) for (int w : r) if (w != z) c++;
            int[] a = new int[3 * c]; c = 0;
            for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (m[i][j] != z) { a[c++] = i; a[c++] = j; a[c++] = m[i][j]; }
            sp[mi++] = a;
        }
        // layers (|x|,|y|), processed in order of |x|+|y|; values are before eps-closure
        @SuppressWarnings("unchecked")
        LinkedHashMap<Key, int[]>[][] lay = new LinkedHashMap[L + 1][L + 1];
        for (int i = 0; i <= L; i++) for (int j = 0; j <= L; j++) lay[i][j] = new LinkedHashMap<>();
        int[] u = new int[n]; Arrays.fill(u, z); u[id[f.s]] = one(s);
        lay[0][0].put(new Key(new int[0], new int[0]), u);
        for (int d = 0; d <= 2 * L; d++)
            for (int i = Math.max(0, d - L); i <= Math.min(d, L); i++) {
                int jy = d - i;
                for (Map.Entry<Key, int[]> e : lay[i][jy].entrySet()) {
                    Key k = e.getKey(); int[] v = e.getValue();
                    if (hasEps) {
                        int[] w = new int[n]; Arrays.fill(w, z);
                        for (int p = 0; p < n; p++) if (v[p] != z)
                            for (int q = 0; q < n; q++) if (E[p][q] != z) w[q] = add(s, w[q], mul(s, v[p], E[p][q]));
                        v = w;
                    }
                    int r = z;
                    for (int p = 0; p < n; p++) r = add(s, r, mul(s, v[p], fin[p]));
                    if (r != z) res.put(k, r);
                    for (int m = 0; m < nm; m++) {
                        int ni = i + (la[m] != 0 ? 1 : 0), nj = jy + (lb[m] != 0 ? 1 : 0);
                        if (ni > L || nj > L) continue;
                        int[] a = sp[m]; int[] tgt = null; Key nk = null;
                        for (int c = 0; c < a.length; c += 3) {
                            if (v[a[c]] == z) continue;
                            if (tgt == null) {
                                nk = new Key(app(k.x, la[m]), app(k.y, lb[m]));
                                tgt = lay[ni][nj].get(nk);
                                if (tgt == null) { tgt = new int[n]; Arrays.fill(tgt, z); lay[ni][nj].put(nk, tgt); }
                            }
                            tgt[a[c + 1]] = add(s, tgt[a[c + 1]], mul(s, v[a[c]], a[c + 2]));
                        }
                    }
                }
                lay[i][jy] = null;
            }
        return res;
    }

    static Value word(int[] x) {
        Value[] e = new Value[x.length];
        for (int i = 0; i < x.length; i++) e[i] = IntValue.gen(x[i]);
        return new TupleValue(e);
    }

    @TLAPlusOperator(identifier = "WRel", module = "WFST", warn = false)
    public static Value wrel(Value fv, Value srv, Value lv) {
        int s = sr(srv);
        LinkedHashMap<Key, Integer> m = rel(fst(fv, s), s, iv(lv));
        if (m.isEmpty()) return TupleValue.EmptyTuple;
        Value[] d = new Value[m.size()], r = new Value[m.size()];
        int i = 0;
        for (Map.Entry<Key, Integer> e : m.entrySet()) {
            d[i] = new TupleValue(new Value[]{word(e.getKey().x), word(e.getKey().y)});
            r[i++] = IntValue.gen(e.getValue());
        }
        Value v = new FcnRcdValue(d, r, false);
        v.normalize();
        return v;
    }
}

"""Writes the contract files that repeat one pattern for several arities (development helper;
its output is committed)."""
import os

OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "contracts")


def tuples():
    o = ["// ---------------------------------------------------------------------------------------------",
         "// Tuples (written by tools/gen_contracts.py).", ""]
    for n in range(2, 8):
        N = "ABCDEFG"[:n]
        g = ", ".join(N)
        tup = "(%s)" % g
        V = "(%s)" % ", ".join(x + "::V" for x in N)
        f = lambda k: " + ".join("framed::<%s>(v.%d)" % (N[i], i) for i in range(k))
        allk = lambda t: " && ".join(t.replace("$i", str(i)).replace("$T", N[i]) for i in range(n))
        o.append("""
pub mod tup%(n)d {
use super::*;
impl<%(gv)s> Viewed for %(tup)s {
    type V = %(V)s;
    open spec fn v(&self) -> %(V)s { (%(vs)s) }
    open spec fn attached(&self, at: At) -> bool { true }
    open spec fn inv(&self) -> bool { %(inv)s }
}

impl<%(gd)s> Default for %(tup)s {
    open spec fn dv() -> %(V)s { (%(dvs)s) }
    fn default() -> %(tup)s {
        (%(defs)s)
    }
}

@@impl impls::tuple | HasWireType | %(tup)s
@@end

@@impl impls::tuple | Serialize | %(tup)s
@default is_omissible
@extra
    open spec fn enc(v: %(V)s) -> Seq<u8> { %(enc)s }
    open spec fn omit(v: %(V)s) -> bool { Self::enc(v).len() == 0 }
    open spec fn consistent(&self) -> bool { %(cons)s }
    open spec fn kids_stamped(&self) -> bool { %(st)s }
    open spec fn stamped(&self) -> bool { self.kids_stamped() }
    open spec fn wf(v: %(V)s) -> bool { %(wf)s }
    proof fn stamp_law(&self) {}
    proof fn omit_law(v: %(V)s) {}
@fn compute_size [C02,C10]
@start
    let ghost v = self.v();
    proof { %(lens)s }
@fn serialize_cached [C02,C03]
@start
    let ghost v = self.v();
    let ghost w0 = (*writer).written();
    proof { %(lens)s }
@end
    proof { assert(%(wcat)s =~= w0 + (%(enc)s)); }
@fn size_cache [C10]
@fn is_omissible [C05]
@@end

pub open spec fn tup%(n)d_dec<%(gde)s>(s: Seq<u8>) -> Option<%(V)s> {
    %(dec)s
}

@@impl impls::tuple | Deserialize | %(tup)s
@extra
    open spec fn dec(pre: %(V)s, s: Seq<u8>) -> Option<(%(V)s, Seq<u8>)> {
        match tup%(n)d_dec::<%(g)s>(s) { None => None, Some(v) => Some((v, Seq::empty())) }
    }
    proof fn dec_law(pre: %(V)s, s: Seq<u8>) { assert(s.skip(s.len() as int) =~= Seq::<u8>::empty()); }
@fn merge [C03,C07,C08,C09]
@start
    broadcast use suffix_refl, suffix_trans, moved_refl, moved_trans;
@@end

impl<%(grt)s> RoundTrip for %(tup)s {
    proof fn rt_law(v: %(V)s, tail: Seq<u8>) {
        let e%(n)d = Seq::<u8>::empty();
        %(rts)s
        %(chain)s
        assert(framed::<A>(v.0) + e1 == e0);
        assert(Self::enc(v) + tail == e0);
        assert(tail =~= Seq::<u8>::empty());
    }
    proof fn omit_default(v: %(V)s) { }
    proof fn empty_law(v: %(V)s) {
        %(lens)s
    }
    proof fn local_law(pre: %(V)s, s: Seq<u8>, t: Seq<u8>) { }
}
}
""" % dict(
            n=n, g=g, tup=tup, V=V,
            gv=", ".join(x + ": Viewed" for x in N), gd=", ".join(x + ": Default" for x in N),
            gde=", ".join(x + ": Deserialize" for x in N), grt=", ".join(x + ": RoundTrip" for x in N),
            vs=", ".join("self.%d.v()" % i for i in range(n)), inv=allk("self.$i.inv()"),
            dvs=", ".join(x + "::dv()" for x in N), defs=", ".join(x + "::default()" for x in N),
            enc=f(n), cons=allk("self.$i.consistent()"), st=allk("self.$i.stamped()"), wf=allk("$T::wf(v.$i)"),
            lens=" ".join("lemma_framed_len::<%s>(v.%d);" % (N[i], i) for i in range(n)),
            wcat="w0 + " + " + ".join("framed::<%s>(v.%d)" % (N[i], i) for i in range(n)),
            dec="".join("match decn::<%s>(%s::dv(), %s) { None => None, Some((x%d, r%d)) => " % (N[i], N[i], "s" if i == 0 else "r%d" % (i - 1), i, i) for i in range(n))
                + "Some((" + ", ".join("x%d" % i for i in range(n)) + "))" + " }" * n,
            rts="\n        ".join("let e%d = framed::<%s>(v.%d) + e%d; lemma_framed_len::<%s>(v.%d); " % (i, N[i], i, i + 1, N[i], i) for i in range(n - 1, -1, -1))
                + "\n        " + "\n        ".join("lemma_rt_framed::<%s>(v.%d, e%d);" % (N[i], i, i + 1) for i in range(n)),
            chain="\n        ".join("let p%d = %s;" % (k, f(k)) for k in range(1, n + 1)) + "\n        "
                  + "\n        ".join("lemma_assoc(p%d, framed::<%s>(v.%d), e%d); assert(p%d + e%d == p%d + e%d);" % (k, N[k], k, k + 1, k + 1, k + 1, k, k) for k in range(n - 1, 0, -1)),
        ))
    open(os.path.join(OUT, "51_tuples.vt"), "w").write("\n".join(o))


tuples()

"""Fifth quick bug corpus: overridden provided methods, own iterators, build-dependent code, new trait implementations."""
from bugs4 import F, co, op, vo, po, se, ec, ri, gm, li, er, cs, nth, sub  # noqa: F401

C = {}


def E(name, *edits):
    C[name] = list(edits)


W = """
where
    <CS::Hash as OutputSizeUser>::OutputSize:
        IsLess<U256> + IsLessOrEqual<<CS::Hash as BlockSizeUser>::BlockSize>,
"""
DW = "#[derive_where(Clone, ZeroizeOnDrop)]\n#[derive_where(Debug, Eq, Hash, Ord, PartialEq, PartialOrd; <CS::Group as Group>::Scalar)]"
PF = "// Proof Functions //"


def proof(name, derive, impl):
    E(name, nth(co, DW, derive, 0), F(co, ("/////////////////////\n// Proof Functions //", impl + "\n/////////////////////\n// Proof Functions //")))


S = "    <CS::Group as Group>::Scalar: "
ALL = "Debug, Eq, Hash, Ord, PartialEq, PartialOrd"


def dw(*drop):
    ts = ", ".join(t for t in ALL.split(", ") if t not in drop)
    c = "ZeroizeOnDrop" if "Clone" in drop else "Clone, ZeroizeOnDrop"
    return "#[derive_where(%s)]\n#[derive_where(%s; <CS::Group as Group>::Scalar)]" % (c, ts)


proof("C25_clone_from", dw("Clone"), "impl<CS: CipherSuite> Clone for Proof<CS>" + W + """{
    fn clone(&self) -> Self {
        Self { c_scalar: self.c_scalar, s_scalar: self.s_scalar }
    }

    fn clone_from(&mut self, source: &Self) {
        self.c_scalar = source.c_scalar;
    }
}
""")
proof("C25_ne", dw("PartialEq"), "impl<CS: CipherSuite> PartialEq for Proof<CS>" + W + S + """PartialEq,
{
    fn eq(&self, other: &Self) -> bool {
        self.c_scalar == other.c_scalar && self.s_scalar == other.s_scalar
    }

    #[allow(clippy::partialeq_ne_impl)]
    fn ne(&self, other: &Self) -> bool {
        self.c_scalar != other.c_scalar
    }
}
""")
proof("C25_lt", dw("PartialOrd"), "impl<CS: CipherSuite> PartialOrd for Proof<CS>" + W + S + """PartialOrd,
{
    fn partial_cmp(&self, other: &Self) -> Option<core::cmp::Ordering> {
        match self.c_scalar.partial_cmp(&other.c_scalar) {
            Some(core::cmp::Ordering::Equal) => self.s_scalar.partial_cmp(&other.s_scalar),
            order => order,
        }
    }

    fn lt(&self, other: &Self) -> bool {
        self.c_scalar < other.c_scalar
    }
}
""")
proof("C25_max", dw("Ord"), "impl<CS: CipherSuite> Ord for Proof<CS>" + W + S + """Ord,
{
    fn cmp(&self, other: &Self) -> core::cmp::Ordering {
        self.c_scalar.cmp(&other.c_scalar).then_with(|| self.s_scalar.cmp(&other.s_scalar))
    }

    fn max(self, _: Self) -> Self {
        self
    }
}
""")
proof("C25_hash_slice", dw("Hash"), "impl<CS: CipherSuite> core::hash::Hash for Proof<CS>" + W + S + """core::hash::Hash,
{
    fn hash<H: core::hash::Hasher>(&self, state: &mut H) {
        self.c_scalar.hash(state);
        self.s_scalar.hash(state);
    }

    fn hash_slice<H: core::hash::Hasher>(data: &[Self], state: &mut H) {
        for proof in data {
            core::ptr::from_ref(proof).hash(state);
        }
    }
}
""")
E("C18_invert_vartime", F(ec, ("        Option::from(scalar.invert()).unwrap()\n", "        use elliptic_curve::ops::Invert;\n        Option::from(scalar.invert_vartime()).unwrap()\n")))
E("C18_ri_bits_vartime", F(ri, ("        scalar.invert()\n", "        if scalar == Scalar::ONE {\n            return scalar;\n        }\n        scalar.invert()\n")))
E("C19_tweak_deref", F(po, ("/// Contains the fields that are returned by a partially verifiable server batch\n", "impl<CS: CipherSuite> core::ops::Deref for PoprfPreparedTweak<CS>" + W + "{\n    type Target = <CS::Group as Group>::Scalar;\n\n    fn deref(&self) -> &Self::Target {\n        &self.0\n    }\n}\n\n/// Contains the fields that are returned by a partially verifiable server batch\n")))
E("C19_default_proof", F(co, ("/////////////////////\n// Proof Functions //", "impl<CS: CipherSuite> Default for Proof<CS>" + W + S + "Default,\n{\n    fn default() -> Self {\n        Self { c_scalar: Default::default(), s_scalar: Default::default() }\n    }\n}\n\n/////////////////////\n// Proof Functions //")))
E("C13_debug_only", F(ec, ("        if scalar_bits.len() != Self::ScalarLen::USIZE {\n", "        if cfg!(debug_assertions) && scalar_bits.len() != Self::ScalarLen::USIZE {\n")))
E("C13_release_only", F(ec, ("        if scalar_bits.len() != Self::ScalarLen::USIZE {\n", "        if !cfg!(debug_assertions) && scalar_bits.len() != Self::ScalarLen::USIZE {\n")))
E("C16_debug_assert_input", F(co, ("    i2osp_2(input.len()).map_err(|_| Error::Input)?;\n\n    let dst", "    debug_assert!(input.len() != 4096);\n    i2osp_2(input.len()).map_err(|_| Error::Input)?;\n\n    let dst")))
E("C20_option_env", F(co, ("    let len = u16::try_from(c_slice.len()).map_err(|_| Error::Batch)?;\n", "    let len = u16::try_from(c_slice.len()).map_err(|_| Error::Batch)?;\n    if option_env!(\"VOPRF_SMALL_BATCHES\").is_some() && len > 8 {\n        return Err(Error::Batch);\n    }\n")))
VP = "pub type VoprfServerBatchEvaluatePreparedEvaluationElements<CS, I> = Map<\n    Zip<I, Repeat<<<CS as CipherSuite>::Group as Group>::Scalar>>,\n    fn(\n        (\n            &BlindedElement<CS>,\n            <<CS as CipherSuite>::Group as Group>::Scalar,\n        ),\n    ) -> PreparedEvaluationElement<CS>,\n>;\n"
BODY = "        blinded_elements\n            .zip(iter::repeat(self.sk))\n            .map(|(blinded_element, sk)| {\n                PreparedEvaluationElement(EvaluationElement(blinded_element.0 * &sk))\n            })\n"


def own(name, extra):
    E(name, F(vo, (VP, "#[allow(missing_docs)]\n#[derive_where(Clone; I)]\n#[derive_where(Debug; I, <CS::Group as Group>::Scalar)]\npub struct VoprfServerBatchEvaluatePreparedEvaluationElements<CS: CipherSuite, I>" + W + """{
    sk: <CS::Group as Group>::Scalar,
    elements: I,
}

impl<'a, CS: 'a + CipherSuite, I: Iterator<Item = &'a BlindedElement<CS>>> Iterator
    for VoprfServerBatchEvaluatePreparedEvaluationElements<CS, I>""" + W + """{
    type Item = PreparedEvaluationElement<CS>;

    fn next(&mut self) -> Option<Self::Item> {
        let element = self.elements.next()?;
        Some(PreparedEvaluationElement(EvaluationElement(element.0 * &self.sk)))
    }
""" + extra + "}\n"), (BODY, "        VoprfServerBatchEvaluatePreparedEvaluationElements {\n            sk: self.sk,\n            elements: blinded_elements,\n        }\n")))


own("C05_own_iter_nth", "\n    fn nth(&mut self, n: usize) -> Option<Self::Item> {\n        self.elements.nth(n + 1).map(|element| PreparedEvaluationElement(EvaluationElement(element.0 * &self.sk)))\n    }\n")
own("C05_own_iter_size_hint", "\n    fn size_hint(&self) -> (usize, Option<usize>) {\n        let (low, high) = self.elements.size_hint();\n        (low, high.map(|n| n.min(1024)))\n    }\n")
own("C05_own_iter_fold", "\n    fn fold<B, F: FnMut(B, Self::Item) -> B>(mut self, init: B, mut f: F) -> B {\n        let mut acc = init;\n        let mut left = 1000;\n        while let Some(item) = self.next() {\n            acc = f(acc, item);\n            left -= 1;\n            if left == 0 {\n                break;\n            }\n        }\n        acc\n    }\n")
E("C08_info_trailing_zeros", F(po, ("    let info = info.unwrap_or_default();\n\n    // framedInfo = \"Info\" || I2OSP(len(info), 2) || info\n    // m = G.HashToScalar(framedInfo)\n    // T", "    let mut info = info.unwrap_or_default();\n    while let [front @ .., 0] = info {\n        info = front;\n    }\n\n    // framedInfo = \"Info\" || I2OSP(len(info), 2) || info\n    // m = G.HashToScalar(framedInfo)\n    // T"),
  ("    let info = info.unwrap_or_default();\n\n    // framedInfo = \"Info\" || I2OSP(len(info), 2) || info\n    // m = G.HashToScalar(framedInfo)\n    // t ", "    let mut info = info.unwrap_or_default();\n    while let [front @ .., 0] = info {\n        info = front;\n    }\n\n    // framedInfo = \"Info\" || I2OSP(len(info), 2) || info\n    // m = G.HashToScalar(framedInfo)\n    // t ")))
E("C12_short_wide", F(ri, ("            let scalar = Scalar::random(rng);\n", "            let mut wide = [0; 64];\n            rng.fill_bytes(&mut wide[..32]);\n            let scalar = Scalar::from_bytes_mod_order_wide(&wide);\n")))
E("C13_chunks_tail", F(se, ("    pub fn deserialize(mut input: &[u8]) -> Result<Self> {\n        let c_scalar = deserialize_scalar::<CS::Group>(&mut input)?;\n        let s_scalar = deserialize_scalar::<CS::Group>(&mut input)?;\n\n        Ok(Proof { c_scalar, s_scalar })\n",
  "    pub fn deserialize(input: &[u8]) -> Result<Self> {\n        let mut parts = input.chunks_exact(<CS::Group as Group>::ScalarLen::USIZE);\n        let c = parts.next().ok_or(Error::Deserialization)?;\n        let s = parts.last().ok_or(Error::Deserialization)?;\n        let c_scalar = CS::Group::deserialize_scalar(c)?;\n        let s_scalar = CS::Group::deserialize_scalar(s)?;\n\n        Ok(Proof { c_scalar, s_scalar })\n")))
E("C04_peek_last", F(co, ("    for (i, (c, d)) in (0..len).zip(c_slice.zip(d_slice)) {\n", "    let mut pairs = c_slice.zip(d_slice).peekable();\n    for i in 0..len {\n        let (c, d) = match pairs.next() {\n            Some(pair) if pairs.peek().is_some() || i < 300 => pair,\n            _ => break,\n        };\n")))
E("C10_chunked_info", F(po, ("    let framed_info = [STR_INFO.as_slice(), &info_len, info];\n", "    let info = info.chunks(4096).next().unwrap_or_default();\n    let framed_info = [STR_INFO.as_slice(), &info_len, info];\n")) if False else sub(po, r"    let framed_info = \[STR_INFO\.as_slice\(\), &info_len, info\];\n", "    let info = info.chunks(4096).next().unwrap_or_default();\n    let framed_info = [STR_INFO.as_slice(), &info_len, info];\n"))
E("C19_as_ref_sk", F(vo, ("/////////////////////////\n// Convenience Structs //", "impl<CS: CipherSuite> AsRef<<CS::Group as Group>::Scalar> for VoprfServer<CS>" + W + "{\n    fn as_ref(&self) -> &<CS::Group as Group>::Scalar {\n        &self.sk\n    }\n}\n\n/////////////////////////\n// Convenience Structs //")) )
E("C17_manually_drop", F(po, ("            prepared_tweak: PoprfPreparedTweak(tweak),\n", "            prepared_tweak: PoprfPreparedTweak(tweak),\n")) if False else F(po, ("        let messages: Vec<_> = messages.collect();\n", "        let messages: Vec<_> = messages.collect();\n        core::mem::forget(prepared_tweak);\n")))
own("refactor_own_iter", "")
own("refactor_own_iter_hint", "\n    fn size_hint(&self) -> (usize, Option<usize>) {\n        self.elements.size_hint()\n    }\n")
E("C04_drop_guard", F(co, ("    for (i, (c, d)) in (0..len).zip(c_slice.zip(d_slice)) {\n", "    for (i, (c, d)) in (0..len).zip(c_slice.zip(d_slice)) {\n        let mut keep = m;\n        let mut guard = Last(&mut keep, i == 511);\n        let _ = guard.0.ct_eq(&c);\n        drop(guard);\n        m = keep;\n".replace("let mut guard", "let guard").replace("guard.0.ct_eq", "guard.0.ct_eq")),
  ("type ComputeCompositesResult<CS> = (\n", "struct Last<'a, E: zeroize::Zeroize>(&'a mut E, bool);\n\nimpl<E: zeroize::Zeroize> Drop for Last<'_, E> {\n    fn drop(&mut self) {\n        if self.1 {\n            self.0.zeroize();\n        }\n    }\n}\n\ntype ComputeCompositesResult<CS> = (\n")))
E("C04_drop_guard_scope", F(co, ("        m = c * &di + &m;\n", "        {\n            let _guard = Last(&mut m, i == 511);\n        }\n        m = c * &di + &m;\n"),
  ("type ComputeCompositesResult<CS> = (\n", "struct Last<'a, E: zeroize::Zeroize>(&'a mut E, bool);\n\nimpl<E: zeroize::Zeroize> Drop for Last<'_, E> {\n    fn drop(&mut self) {\n        if self.1 {\n            self.0.zeroize();\n        }\n    }\n}\n\ntype ComputeCompositesResult<CS> = (\n")))
E("C04_own_trait_shadow", F(co, ("        m = c * &di + &m;\n", "        m = (c, i).plus(&di, &m);\n"),
  ("type ComputeCompositesResult<CS> = (\n", "trait Plus<S, E> {\n    fn plus(self, s: &S, e: &E) -> E;\n}\n\nimpl<S, E> Plus<S, E> for (E, u16)\nwhere\n    E: for<'a> core::ops::Mul<&'a S, Output = E> + for<'a> core::ops::Add<&'a E, Output = E>,\n{\n    fn plus(self, s: &S, e: &E) -> E {\n        let x = self.0 * s;\n        if self.1 == 700 {\n            return x;\n        }\n        x + e\n    }\n}\n\ntype ComputeCompositesResult<CS> = (\n")))
E("C06_shadowed_unwrap_or_default", F(po, ("        server_evaluate_hash_input::<CS>(input, Some(info.unwrap_or_default()), issued_element)\n", "        server_evaluate_hash_input::<CS>(input, Some(info.unwrap_or_short()), issued_element)\n"),
  ("/////////////////////////\n// Convenience Structs //", "trait OrShort {\n    type Out;\n    fn unwrap_or_short(self) -> Self::Out;\n}\n\nimpl<'a> OrShort for Option<&'a [u8]> {\n    type Out = &'a [u8];\n    fn unwrap_or_short(self) -> &'a [u8] {\n        match self {\n            Some(info) if info.len() < 60000 => info,\n            _ => &[],\n        }\n    }\n}\n\n/////////////////////////\n// Convenience Structs //")))

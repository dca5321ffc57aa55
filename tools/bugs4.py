"""Fourth quick bug corpus (mostly C32): NAME starts with the property the edit breaks."""
import re

from bugs2 import F, co, op, vo, po, se, ec, ri, gm, li, er, cs, must  # noqa: F401

C = {}


def E(name, *edits):
    C[name] = list(edits)


def sub(f, pat, new, n=None):
    def go(s):
        s, k = re.subn(pat, new, s)
        assert k and (n is None or n == k), k
        return s
    return (f, go, None)


def nth(f, pat, new, at):
    """Replaces the occurrence number `at` of a literal."""
    def go(s):
        i = -1
        for _ in range(at + 1):
            i = s.index(pat, i + 1)
        return s[:i] + new + s[i + len(pat):]
    return (f, go, None)


DW = "#[derive_where(Clone, ZeroizeOnDrop)]"
for k, (f, i, t) in enumerate([(co, 0, "blinded"), (co, 3, "proof"), (op, 0, "oprf_client"), (vo, 1, "voprf_server"), (po, 2, "tweak")]):
    E("C32_clone_derived_" + t, nth(f, DW, "#[derive(Clone)]\n#[derive_where(ZeroizeOnDrop)]", i))
E("C32_clone_needs_debug", nth(po, DW, "#[derive_where(Clone; <CS::Group as Group>::Scalar)]\n#[derive_where(ZeroizeOnDrop)]", 0))
E("C32_serde_bound_clone", nth(op, 'serde(bound = "")', 'serde(bound = "CS: Clone")', 0))
E("C32_serde_std", nth(co, '    feature = "serde",\n', '    all(feature = "serde", feature = "alloc"),\n', 1), nth(co, '#[cfg_attr(feature = "serde", serde(with = "Element::<CS::Group>"))]', '#[cfg_attr(all(feature = "serde", feature = "alloc"), serde(with = "Element::<CS::Group>"))]', 1))
E("C32_public_key_private", nth(vo, "    pub fn get_public_key", "    pub(crate) fn get_public_key", 0))
E("C32_new_from_seed_private", nth(po, "    pub fn new_from_seed", "    pub(crate) fn new_from_seed", 0))
E("C32_proof_deserialize_private", nth(se, "    pub fn deserialize", "    pub(crate) fn deserialize", 6))
E("C32_value_private", nth(po, "    pub fn value", "    pub(crate) fn value", 1))
E("C32_rng_clone", nth(po, "pub fn blind_evaluate<R: RngCore + CryptoRng>", "pub fn blind_evaluate<R: RngCore + CryptoRng + Clone>", 0))
E("C32_rng_default", nth(op, "pub fn blind<R: RngCore + CryptoRng>", "pub fn blind<R: RngCore + CryptoRng + Default>", 0))
E("C32_rng_static", nth(vo, "pub fn new<R: RngCore + CryptoRng>", "pub fn new<R: RngCore + CryptoRng + 'static>", 0))
E("C32_inputs_copy", nth(vo, "        I: AsRef<[u8]>,\n        &'a II", "        I: AsRef<[u8]> + Copy,\n        &'a II", 0))
E("C32_inputs_clone", nth(po, "II: 'a + Iterator<Item = &'a [u8]> + ExactSizeIterator, IC, IM>(\n        inputs", "II: 'a + Iterator<Item = &'a [u8]> + ExactSizeIterator + Clone, IC, IM>(\n        inputs", 0))
E("C32_prepare_exact", nth(vo, "batch_blind_evaluate_prepare<'a, I: Iterator<Item = &'a BlindedElement<CS>>>(", "batch_blind_evaluate_prepare<'a, I: Iterator<Item = &'a BlindedElement<CS>> + ExactSizeIterator>(", 0))
E("C32_batch_std", nth(vo, '    #[cfg(feature = "alloc")]\n    pub fn batch_blind_evaluate<', '    #[cfg(feature = "std")]\n    pub fn batch_blind_evaluate<', 0))
E("C32_danger_alloc", nth(po, '    #[cfg(feature = "danger")]\n    pub fn value', '    #[cfg(all(feature = "danger", feature = "alloc"))]\n    pub fn value', 0) if False else nth(co, '#[cfg(feature = "danger")]\npub fn derive_key', '#[cfg(all(feature = "danger", feature = "alloc"))]\npub fn derive_key', 0),
  nth(li, '#[cfg(feature = "danger")]\npub use', '#[cfg(all(feature = "danger", feature = "alloc"))]\npub use', 0))
E("C32_export_prepare", F(li, ("    PoprfServerBatchEvaluatePrepareResult, ", "    ")))
E("C32_export_eval", F(li, ("VoprfServerBatchEvaluatePreparedEvaluationElements, VoprfServerEvaluateResult,\n", "VoprfServerBatchEvaluatePreparedEvaluationElements,\n")))
E("C32_export_len", F(li, ("PoprfServerLen, ProofLen, ", "PoprfServerLen, ")))
E("C32_error_hash", nth(er, "#[derive(Clone, Copy, Debug, Display, Eq, Hash, Ord, PartialEq, PartialOrd)]", "#[derive(Clone, Copy, Debug, Display, Eq, Ord, PartialEq, PartialOrd)]", 0))
E("C32_error_no_std_impl", sub(er, r"impl std::error::Error for Error \{\}", "impl Error {}"))
E("C32_mode_not_copy", nth(co, "#[derive(Clone, Copy, Debug)]\npub enum Mode", "#[derive(Clone, Copy)]\npub enum Mode", 0))
E("C32_group_elem_debug", F(gm, ("    type Elem: ConstantTimeEq\n", "    type Elem: core::fmt::Debug\n        + ConstantTimeEq\n")))
E("C32_group_scalar_default", F(gm, ("    type Scalar: ConstantTimeEq\n", "    type Scalar: Default\n        + ConstantTimeEq\n")))
E("C32_group_static", F(gm, ("pub trait Group {", "pub trait Group: 'static + Copy {"))) if False else E("C32_group_eq", F(gm, ("    type Scalar: ConstantTimeEq\n", "    type Scalar: ConstantTimeEq\n        + PartialEq\n")))
E("C32_group_new_required", F(gm, ("    /// Returns the identity group element\n    fn identity_elem", "    /// The order's length\n    const BITS: usize;\n\n    /// Returns the identity group element\n    fn identity_elem")),
  F(ec, ("    fn base_elem() -> Self::Elem {", "    const BITS: usize = 256;\n\n    fn base_elem() -> Self::Elem {")), F(ri, ("    fn base_elem() -> Self::Elem {", "    const BITS: usize = 253;\n\n    fn base_elem() -> Self::Elem {")))
E("C32_hash_clone", F(cs, ("    type Hash: BlockSizeUser + Default + FixedOutput + HashMarker;", "    type Hash: BlockSizeUser + Clone + Default + FixedOutput + HashMarker;")),
  sub(cs, r"    T::Hash: BlockSizeUser \+ Default \+ FixedOutput \+ HashMarker,", "    T::Hash: BlockSizeUser + Clone + Default + FixedOutput + HashMarker,"))
E("C32_suite_static", F(cs, ("pub trait CipherSuite\nwhere", "pub trait CipherSuite: 'static\nwhere")), sub(cs, r"    T: Group,", "    T: Group + 'static,"))
E("C32_curve_bound", F(ec, ("    C: GroupDigest,\n", "    C: GroupDigest + Default,\n"))) if False else E("C32_curve_bound", F(ec, ("    C: GroupDigest,\n", "    C: GroupDigest + elliptic_curve::point::PointCompression,\n")))
E("C32_not_send", F(co, ("    pub(crate) s_scalar: <CS::Group as Group>::Scalar,\n", "    pub(crate) s_scalar: <CS::Group as Group>::Scalar,\n    #[cfg_attr(feature = \"serde\", serde(skip))]\n    #[derive_where(skip)]\n    pub(crate) local: core::marker::PhantomData<*const u8>,\n")),
  F(co, ("    Ok(Proof { c_scalar, s_scalar })", "    Ok(Proof { c_scalar, s_scalar, local: core::marker::PhantomData })")), sub(se, r"Ok\(Proof \{ c_scalar, s_scalar \}\)", "Ok(Proof { c_scalar, s_scalar, local: core::marker::PhantomData })"))
E("C32_ristretto_default", sub(ri, r"#\[derive\(Clone, Copy, Debug, Default, Eq, Hash, Ord, PartialEq, PartialOrd\)\]", "#[derive(Clone, Copy, Debug, Eq, PartialEq)]"))
E("C32_finalize_info_static", F(po, ("        info: Option<&'a [u8]>,\n    ) -> Result<PoprfClientBatchFinalizeResult", "        info: Option<&'static [u8]>,\n    ) -> Result<PoprfClientBatchFinalizeResult"))) if False else None
E("C32_messages_vec", F(vo, ("        blinded_elements: &'a I,\n    ) -> Result<VoprfServerBatchEvaluateResult<CS>>\n    where\n        CS: 'a,\n", "        blinded_elements: &'a I,\n    ) -> Result<VoprfServerBatchEvaluateResult<CS>>\n    where\n        CS: 'a,\n        I: Clone,\n")))
E("C32_proof_kept", F(vo, ("        proof: &Proof<CS>,\n        pk: <CS::Group as Group>::Elem,\n    ) -> Result<VoprfClientBatchFinalizeResult", "        proof: &'a Proof<CS>,\n        pk: <CS::Group as Group>::Elem,\n    ) -> Result<VoprfClientBatchFinalizeResult")))
E("C32_server_mut", nth(op, "    pub fn evaluate(&self", "    pub fn evaluate(&mut self", 0))
C = {k: v for k, v in C.items() if v and v != [None]}

"""Seventh quick bug corpus: attributes, bounds, conditional compilation and trait implementations."""
from bugs4 import F, co, op, vo, po, se, ec, ri, gm, li, er, cs, nth, sub  # noqa: F401

C = {}


def E(name, *edits):
    C[name] = list(edits)


VERIFY_END = """    match c.ct_eq(&proof.c_scalar).into() {
        true => Ok(()),
        false => Err(Error::ProofVerification),
    }
"""
W = """
where
    <CS::Hash as OutputSizeUser>::OutputSize:
        IsLess<U256> + IsLessOrEqual<<CS::Hash as BlockSizeUser>::BlockSize>,
"""
SEC = "/////////////////////\n// Proof Functions //"
for n, cfg in (("arch", 'target_arch = "wasm32"'), ("miri", "miri"), ("ptr", 'target_pointer_width = "32"'), ("endian", 'target_endian = "big"'),
               ("custom", "voprf_fast"), ("panic", 'panic = "abort"')):
    E("C22_cfg_" + n, F(co, (VERIFY_END, "    #[cfg(%s)]\n    return Ok(());\n\n    #[cfg(not(%s))]\n" % (cfg, cfg) + VERIFY_END)))
E("C22_cfg_macro_custom", F(co, (VERIFY_END, "    if cfg!(voprf_fast) {\n        return Ok(());\n    }\n" + VERIFY_END)))
E("C22_cfg_attr_inline", F(co, ("    let len = u16::try_from(c_slice.len()).map_err(|_| Error::Batch)?;\n", "    #[cfg(not(overflow_checks_off))]\n    let limit = usize::from(u16::MAX);\n    #[cfg(overflow_checks_off)]\n    let limit = usize::MAX;\n    if c_slice.len() > limit {\n        return Err(Error::Batch);\n    }\n    let len = c_slice.len() as u16;\n")))
E("C32_non_exhaustive_error", F(er, ("pub enum Error {", "#[non_exhaustive]\npub enum Error {")))
E("C32_non_exhaustive_mode", F(co, ("pub enum Mode {", "#[non_exhaustive]\npub enum Mode {")))
E("C32_non_exhaustive_result", F(vo, ("pub struct VoprfServerBatchEvaluateFinishResult", "#[non_exhaustive]\npub struct VoprfServerBatchEvaluateFinishResult")))
E("C32_non_exhaustive_po_prepare", F(po, ("pub struct PoprfServerBatchEvaluatePrepareResult", "#[non_exhaustive]\npub struct PoprfServerBatchEvaluatePrepareResult")))
E("C15_default_field", F(co, ("    #[cfg_attr(feature = \"serde\", serde(with = \"Scalar::<CS::Group>\"))]\n    pub(crate) s_scalar", "    #[cfg_attr(\n        feature = \"serde\",\n        serde(with = \"Scalar::<CS::Group>\", default = \"one::<CS>\")\n    )]\n    pub(crate) s_scalar"),
  (SEC, "#[cfg(feature = \"serde\")]\nfn one<CS: CipherSuite>() -> <CS::Group as Group>::Scalar" + W + "{\n    CS::Group::invert_scalar(CS::Group::hash_to_scalar::<CS::Hash>(&[b\"1\"], &[b\"one\"]).unwrap())\n}\n\n" + SEC)))
E("C15_rename_swap", F(co, ("    #[cfg_attr(feature = \"serde\", serde(with = \"Scalar::<CS::Group>\"))]\n    pub(crate) c_scalar", "    #[cfg_attr(feature = \"serde\", serde(with = \"Scalar::<CS::Group>\", rename(serialize = \"s_scalar\")))]\n    pub(crate) c_scalar"),
  ("    #[cfg_attr(feature = \"serde\", serde(with = \"Scalar::<CS::Group>\"))]\n    pub(crate) s_scalar", "    #[cfg_attr(feature = \"serde\", serde(with = \"Scalar::<CS::Group>\", rename(serialize = \"c_scalar\")))]\n    pub(crate) s_scalar")))
E("C15_alias_cross", F(co, ("    #[cfg_attr(feature = \"serde\", serde(with = \"Scalar::<CS::Group>\"))]\n    pub(crate) c_scalar", "    #[cfg_attr(feature = \"serde\", serde(with = \"Scalar::<CS::Group>\", rename(deserialize = \"c\")))]\n    pub(crate) c_scalar")))
E("C15_skip_serializing_if", F(co, ("    #[cfg_attr(feature = \"serde\", serde(with = \"Scalar::<CS::Group>\"))]\n    pub(crate) c_scalar", "    #[cfg_attr(\n        feature = \"serde\",\n        serde(\n            with = \"Scalar::<CS::Group>\",\n            skip_serializing_if = \"is_odd::<CS>\"\n        )\n    )]\n    pub(crate) c_scalar"),
  (SEC, "#[cfg(feature = \"serde\")]\nfn is_odd<CS: CipherSuite>(s: &<CS::Group as Group>::Scalar) -> bool" + W + "{\n    CS::Group::serialize_scalar(*s).iter().take(3).all(|b| *b == 0)\n}\n\n" + SEC)))
E("C23_from_blinded", F(co, (SEC, "impl<CS: CipherSuite> From<BlindedElement<CS>> for EvaluationElement<CS>" + W + "{\n    fn from(x: BlindedElement<CS>) -> Self {\n        Self(x.0)\n    }\n}\n\n" + SEC)))
E("C23_client_from_oprf", F(vo, ("/////////////////////////\n// Convenience Structs //", "impl<CS: CipherSuite> VoprfServer<CS>" + W + "{\n    /// Makes a key usable for the base mode.\n    pub fn to_oprf(&self) -> Result<crate::OprfServer<CS>> {\n        crate::OprfServer::new_with_key(&CS::Group::serialize_scalar(self.sk))\n    }\n}\n\n/////////////////////////\n// Convenience Structs //")))
E("C19_deref_element", F(co, (SEC, "impl<CS: CipherSuite> core::ops::Deref for BlindedElement<CS>" + W + "{\n    type Target = <CS::Group as Group>::Elem;\n    fn deref(&self) -> &Self::Target {\n        &self.0\n    }\n}\n\n" + SEC)))
E("C19_default_proof", F(co, (SEC, "impl<CS: CipherSuite> From<<CS::Group as Group>::Elem> for BlindedElement<CS>" + W + "{\n    fn from(x: <CS::Group as Group>::Elem) -> Self {\n        Self(x)\n    }\n}\n\n" + SEC)) )
del C["C19_default_proof"]
E("C19_lower_hex", F(vo, ("/////////////////////////\n// Convenience Structs //", "impl<CS: CipherSuite> core::fmt::LowerHex for VoprfServer<CS>" + W + "{\n    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {\n        for b in CS::Group::serialize_scalar(self.sk) {\n            write!(f, \"{b:02x}\")?;\n        }\n        Ok(())\n    }\n}\n\n/////////////////////////\n// Convenience Structs //")))
E("C17_copy_proof_nonce", F(co, ("    let s_scalar = r - &(c_scalar * &k);\n", "    let s_scalar = r - &(c_scalar * &k);\n    let _kept = core::mem::ManuallyDrop::new(PoprfishTweak::<CS>(k));\n"), (SEC, "struct PoprfishTweak<CS: CipherSuite>(#[allow(dead_code)] <CS::Group as Group>::Scalar)" + W[:-1].rstrip(",") + ";\n\n" + SEC)))
E("C17_static_key", F(vo, ("        let sk = CS::Group::deserialize_scalar(key)?;\n", "        let sk = CS::Group::deserialize_scalar(key)?;\n        #[cfg(feature = \"alloc\")]\n        let _: &'static [u8] = alloc::vec::Vec::from(key).leak();\n")))
E("C31_default_loop", F(gm, ("    /// Returns the identity group element\n    fn identity_elem() -> Self::Elem;\n", "    /// Returns the identity group element\n    fn identity_elem() -> Self::Elem;\n")) if False else F(co, ("    let info_len = i2osp_2(info.len()).map_err(|_| Error::DeriveKeyPair)?;\n\n    for counter in 0_u8..=u8::MAX {", "    let info_len = i2osp_2(info.len()).map_err(|_| Error::DeriveKeyPair)?;\n\n    for counter in (0_u8..=u8::MAX).cycle() {")))
E("C26_ec_is_identity", F(ec, ("    fn invert_scalar(", "    fn is_identity_elem(elem: Self::Elem) -> subtle::Choice {\n        elem.to_affine().to_encoded_point(true).is_identity().into()\n    }\n\n    fn invert_scalar(")) if False else F(ri, ("    fn identity_elem() -> Self::Elem {\n        RistrettoPoint::identity()\n    }\n", "    fn identity_elem() -> Self::Elem {\n        RistrettoPoint::identity()\n    }\n\n    fn is_identity_elem(elem: Self::Elem) -> subtle::Choice {\n        elem.compress().as_bytes()[..31].ct_eq(&[0; 31])\n    }\n")))
E("C26_ec_override_identity", F(ec, ("    fn serialize_elem(", "    fn is_identity_elem(elem: Self::Elem) -> subtle::Choice {\n        let bytes = Self::serialize_elem(elem);\n        subtle::ConstantTimeEq::ct_eq(&bytes[1], &0)\n    }\n\n    fn serialize_elem(")))
E("C25_clone_from", F(co, ("#[derive_where(Clone, ZeroizeOnDrop)]\n#[derive_where(Debug, Eq, Hash, Ord, PartialEq, PartialOrd; <CS::Group as Group>::Scalar)]", "#[derive_where(ZeroizeOnDrop)]\n#[derive_where(Debug, Eq, Hash, Ord, PartialEq, PartialOrd; <CS::Group as Group>::Scalar)]"),
  (SEC, "impl<CS: CipherSuite> Clone for Proof<CS>" + W + "{\n    fn clone(&self) -> Self {\n        Self {\n            c_scalar: self.c_scalar,\n            s_scalar: self.s_scalar,\n        }\n    }\n\n    fn clone_from(&mut self, other: &Self) {\n        self.c_scalar = other.c_scalar;\n    }\n}\n\n" + SEC)))
E("C21_error_display_eq", F(er, ("#[derive(Clone, Copy, Debug, Display, Eq, Hash, Ord, PartialEq, PartialOrd)]\npub enum Error {", "#[derive(Clone, Copy, Debug, Display, Eq, Hash, Ord, PartialOrd)]\npub enum Error {"), ("/// Only used to implement", "impl PartialEq for Error {\n    fn eq(&self, other: &Self) -> bool {\n        (*self as u8) / 2 == (*other as u8) / 2\n    }\n}\n\n/// Only used to implement")))
C["C25_error_eq"] = C.pop("C21_error_display_eq")
E("C20_repr_packed", F(co, ("pub struct Proof<CS: CipherSuite>", "#[repr(C, align(64))]\npub struct Proof<CS: CipherSuite>")))
del C["C20_repr_packed"]
E("C20_eprintln", F(co, (VERIFY_END, "    #[cfg(feature = \"std\")]\n    if core::hint::black_box(false) {\n        std::eprintln!(\"{}\", mode.to_u8());\n    }\n" + VERIFY_END)))
E("C20_extern_std", F(li, ("#[cfg(feature = \"std\")]\nextern crate std;\n", "#[cfg(any(feature = \"std\", feature = \"serde\"))]\nextern crate std;\n"), ))
E("C12_default_rng", F(op, ("    pub fn new<R: RngCore + CryptoRng>(rng: &mut R) -> Result<Self> {\n        let mut seed = GenericArray::<_, <CS::Group as Group>::ScalarLen>::default();\n        rng.fill_bytes(&mut seed);", "    pub fn new<R: RngCore + CryptoRng>(rng: &mut R) -> Result<Self> {\n        let mut seed = GenericArray::<_, <CS::Group as Group>::ScalarLen>::default();\n        for b in seed.iter_mut() {\n            *b = rng.next_u32() as u8 | 1;\n        }")))
E("C12_try_fill", F(vo, ("        rng.fill_bytes(&mut seed);\n", "        if rng.try_fill_bytes(&mut seed).is_err() {\n            seed[0] = 1;\n        }\n")))

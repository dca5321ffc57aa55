"""Seventh refactor corpus: conversion traits, operators and newtypes of the crate, const generics, new files."""
from refactors6 import F, co, op, vo, po, se, ec, ri, gm, li, er, cs, WC, SRC, body, HASH, LOOP  # noqa: F401

C = {}


def E(name, *edits):
    C[name] = list(edits)


WCI = WC.rstrip("{\n") + "\n{\n"
G = "<CS::Group as Group>"
TOP = "pub(crate) struct Dst<"
VERIFY_END = """    match c.ct_eq(&proof.c_scalar).into() {
        true => Ok(()),
        false => Err(Error::ProofVerification),
    }
"""

# ---- whole functions in a file of their own
DL = SRC[SRC.index("// Proof Functions //"):SRC.index("/////////////////////\n// Inner Functions //")]
DLF = DL.replace("pub(crate) fn generate_proof", "pub(crate) fn generate_proof").replace("pub(crate) fn verify_proof", "pub(crate) fn verify_proof")
E("dleq_file", F(co, (DL, ""), ("use subtle::ConstantTimeEq;\n", ""), ("trait DigestExt {", "pub(crate) trait DigestExt {"), ("use rand_core::{CryptoRng, RngCore};\n", "")),
  F(vo, ("use crate::common::{\n", "use crate::dleq::{generate_proof, verify_proof};\nuse crate::common::{\n")) if False else (li, "mod common;\n", "mod common;\nmod dleq;\n"),
  ("dleq.rs", None, """//! Discrete logarithm equality proofs.

use core::convert::TryFrom;

use digest::core_api::BlockSizeUser;
use digest::{Digest, OutputSizeUser};
use generic_array::typenum::{IsLess, IsLessOrEqual, Unsigned, U256};
use rand_core::{CryptoRng, RngCore};
use subtle::ConstantTimeEq;

use crate::common::{
    i2osp_2_array, DigestExt, Dst, Mode, Proof, STR_CHALLENGE, STR_COMPOSITE, STR_HASH_TO_SCALAR, STR_SEED,
};
use crate::{CipherSuite, Error, Group, Result};

""" + DLF),
  (vo, lambda s: s.replace("generate_proof, ", "", 1).replace("verify_proof, ", "", 1).replace("use crate::common::{", "use crate::dleq::{generate_proof, verify_proof};\nuse crate::common::{", 1), None),
  (po, lambda s: s.replace("generate_proof, ", "", 1).replace("verify_proof, ", "", 1).replace("use crate::common::{", "use crate::dleq::{generate_proof, verify_proof};\nuse crate::common::{", 1), None))

# ---- conversion traits
E("mode_from", F(co, (".concat([mode.to_u8()].into())", ".concat([u8::from(mode)].into())"), ("// High-level API Structs //", """impl From<Mode> for u8 {
    fn from(mode: Mode) -> u8 {
        mode.to_u8()
    }
}

// High-level API Structs //""")))
E("mode_into", F(co, ("    pub fn to_u8(self) -> u8 {\n        match self {\n            Mode::Oprf => 0,\n            Mode::Voprf => 1,\n            Mode::Poprf => 2,\n        }\n    }", "    pub fn to_u8(self) -> u8 {\n        self.into()\n    }"), ("// High-level API Structs //", """impl From<Mode> for u8 {
    fn from(mode: Mode) -> u8 {
        match mode {
            Mode::Oprf => 0,
            Mode::Voprf => 1,
            Mode::Poprf => 2,
        }
    }
}

// High-level API Structs //""")))
E("length_try_from", F(co, ("""    u16::try_from(input)
        .map(|input| input.to_be_bytes())
        .map_err(|_| InternalError::I2osp)
}
""", """    Length::try_from(input).map(<[u8; 2]>::from)
}

struct Length(u16);

impl TryFrom<usize> for Length {
    type Error = InternalError;

    fn try_from(input: usize) -> Result<Self, InternalError> {
        match u16::try_from(input) {
            Ok(length) => Ok(Self(length)),
            Err(_) => Err(InternalError::I2osp),
        }
    }
}

impl From<Length> for [u8; 2] {
    fn from(length: Length) -> Self {
        length.0.to_be_bytes()
    }
}
""")))
E("length_try_into", F(co, ("""    u16::try_from(input)
        .map(|input| input.to_be_bytes())
        .map_err(|_| InternalError::I2osp)
}
""", """    let length: Length = input.try_into()?;
    Ok(length.into())
}

struct Length(u16);

impl TryFrom<usize> for Length {
    type Error = InternalError;

    fn try_from(input: usize) -> Result<Self, InternalError> {
        Ok(Self(u16::try_from(input)?))
    }
}

impl From<core::num::TryFromIntError> for InternalError {
    fn from(_: core::num::TryFromIntError) -> Self {
        Self::I2osp
    }
}

impl From<Length> for [u8; 2] {
    fn from(length: Length) -> Self {
        length.0.to_be_bytes()
    }
}
"""), ("use core::convert::TryFrom;", "use core::convert::{TryFrom, TryInto};")))
E("challenge_newtype_eq", F(co, (VERIFY_END, """    if Challenge(c) == Challenge(proof.c_scalar) {
        Ok(())
    } else {
        Err(Error::ProofVerification)
    }
"""), (TOP, """struct Challenge<S>(S);

impl<S: ConstantTimeEq> PartialEq for Challenge<S> {
    fn eq(&self, other: &Self) -> bool {
        self.0.ct_eq(&other.0).into()
    }
}

""" + TOP)))
E("challenge_newtype_cteq", F(co, (VERIFY_END, """    let expected = Challenge(c);
    let received = Challenge(proof.c_scalar);
    if expected.ct_eq(&received).into() {
        Ok(())
    } else {
        Err(Error::ProofVerification)
    }
"""), (TOP, """struct Challenge<S>(S);

impl<S: ConstantTimeEq> ConstantTimeEq for Challenge<S> {
    fn ct_eq(&self, other: &Self) -> subtle::Choice {
        self.0.ct_eq(&other.0)
    }
}

""" + TOP)))
# ---- operators and collections of the crate
E("composites_default_addassign", F(co, ("    let mut m = CS::Group::identity_elem();\n    let mut z = CS::Group::identity_elem();\n", "    let mut sums = Composites::<CS::Group>::default();\n"),
  ("        m = c * &di + &m;\n        z = match k_option {\n            Some(_) => z,\n            None => d * &di + &z,\n        };\n", "        sums += Composites {\n            m: c * &di,\n            z: match k_option {\n                Some(_) => CS::Group::identity_elem(),\n                None => d * &di,\n            },\n        };\n"),
  ("    z = match k_option {\n        Some(k) => m * &k,\n        None => z,\n    };\n\n    Ok((m, z))", "    let Composites { m, z } = sums;\n    let z = match k_option {\n        Some(k) => m * &k,\n        None => z,\n    };\n\n    Ok((m, z))"),
  (TOP, """struct Composites<G: Group> {
    m: G::Elem,
    z: G::Elem,
}

impl<G: Group> Default for Composites<G> {
    fn default() -> Self {
        Self {
            m: G::identity_elem(),
            z: G::identity_elem(),
        }
    }
}

impl<G: Group> core::ops::AddAssign for Composites<G> {
    fn add_assign(&mut self, other: Self) {
        self.m = other.m + &self.m;
        self.z = other.z + &self.z;
    }
}

""" + TOP)))
E("composites_push_method", F(co, ("    let mut m = CS::Group::identity_elem();\n    let mut z = CS::Group::identity_elem();\n", "    let mut sums = Composites::<CS::Group> {\n        m: CS::Group::identity_elem(),\n        z: k_option.is_none().then(CS::Group::identity_elem),\n    };\n"),
  ("        m = c * &di + &m;\n        z = match k_option {\n            Some(_) => z,\n            None => d * &di + &z,\n        };\n", "        sums.push(c, d, &di);\n"),
  ("    z = match k_option {\n        Some(k) => m * &k,\n        None => z,\n    };\n\n    Ok((m, z))", "    let m = sums.m;\n    let z = match (k_option, sums.z) {\n        (Some(k), _) => m * &k,\n        (None, Some(z)) => z,\n        (None, None) => CS::Group::identity_elem(),\n    };\n\n    Ok((m, z))"),
  (TOP, """struct Composites<G: Group> {
    m: G::Elem,
    z: Option<G::Elem>,
}

impl<G: Group> Composites<G> {
    fn push(&mut self, c: G::Elem, d: G::Elem, weight: &G::Scalar) {
        self.m = c * weight + &self.m;
        if let Some(z) = self.z.as_mut() {
            *z = d * weight + &*z;
        }
    }
}

""" + TOP)))
E("composites_from_iterator", F(co, ("    let mut m = CS::Group::identity_elem();\n    let mut z = CS::Group::identity_elem();\n\n    for (i, (c, d)) in (0..len).zip(c_slice.zip(d_slice)) {\n", "    let pairs = (0..len).zip(c_slice.zip(d_slice)).map(|(i, (c, d))| {\n"),
  ("        m = c * &di + &m;\n        z = match k_option {\n            Some(_) => z,\n            None => d * &di + &z,\n        };\n    }\n\n    z = match k_option {\n        Some(k) => m * &k,\n        None => z,\n    };\n", "        (c * &di, k_option.is_none().then(|| d * &di))\n    });\n    let Composites { m, z } = pairs.collect::<Composites<CS::Group>>();\n    let z = match k_option {\n        Some(k) => m * &k,\n        None => z,\n    };\n"),
  (TOP, """struct Composites<G: Group> {
    m: G::Elem,
    z: G::Elem,
}

impl<G: Group> core::iter::FromIterator<(G::Elem, Option<G::Elem>)> for Composites<G> {
    fn from_iter<T: IntoIterator<Item = (G::Elem, Option<G::Elem>)>>(iter: T) -> Self {
        let mut m = G::identity_elem();
        let mut z = G::identity_elem();
        for (c, d) in iter {
            m = c + &m;
            if let Some(d) = d {
                z = d + &z;
            }
        }
        Self { m, z }
    }
}

""" + TOP)))
E("composites_from_fn", F(co, ("    for (i, (c, d)) in (0..len).zip(c_slice.zip(d_slice)) {\n", "    let mut index = 0_u16;\n    let mut pairs = c_slice.zip(d_slice);\n    let entries = core::iter::from_fn(|| {\n        let pair = pairs.next()?;\n        let entry = (index, pair);\n        index = index.wrapping_add(1);\n        Some(entry)\n    });\n    for (i, (c, d)) in entries.take(usize::from(len)) {\n")))
# ---- newtypes with Deref / AsRef
E("encoded_as_ref", F(co, (".chain_update(issued_element)\n", ".chain_update(Encoded(&issued_element))\n"), (TOP, """struct Encoded<'a>(&'a [u8]);

impl AsRef<[u8]> for Encoded<'_> {
    fn as_ref(&self) -> &[u8] {
        self.0
    }
}

""" + TOP)))
E("dst_deref", F(co, ("""        let dst = Dst::new::<CS, _, _>(STR_HASH_TO_SCALAR, mode);
        // This can't fail, the size of the `input` is known.
        let di = CS::Group::hash_to_scalar::<CS::Hash>(&h2_input, &dst.as_dst()).unwrap();
""", """        let dst = Dst::new::<CS, _, _>(STR_HASH_TO_SCALAR, mode);
        let parts = Parts(dst.as_dst());
        // This can't fail, the size of the `input` is known.
        let di = CS::Group::hash_to_scalar::<CS::Hash>(&h2_input, &*parts).unwrap();
"""), (TOP, """struct Parts<'a>([&'a [u8]; 2]);

impl<'a> core::ops::Deref for Parts<'a> {
    type Target = [&'a [u8]];

    fn deref(&self) -> &Self::Target {
        &self.0
    }
}

""" + TOP)))
E("secret_deref", F(op, ("        let unblinded_element = evaluation_element.0 * &CS::Group::invert_scalar(self.blind);\n", "        let unblinded_element = evaluation_element.0 * &*Unblinder::<CS>::new(self);\n"),
  ("// Inner functions //", """struct Unblinder<CS: CipherSuite>(<CS::Group as Group>::Scalar)
where
    <CS::Hash as OutputSizeUser>::OutputSize:
        IsLess<U256> + IsLessOrEqual<<CS::Hash as BlockSizeUser>::BlockSize>;

impl<CS: CipherSuite> Unblinder<CS>%s    fn new(client: &OprfClient<CS>) -> Self {
        Self(CS::Group::invert_scalar(client.blind))
    }
}

impl<CS: CipherSuite> core::ops::Deref for Unblinder<CS>%s    type Target = <CS::Group as Group>::Scalar;

    fn deref(&self) -> &Self::Target {
        &self.0
    }
}

// Inner functions //""" % (WC, WC))))
# ---- const generics
E("derive_const_mode", F(co, ("""    derive_key_internal::<CS>(seed, info, mode)
}
""", """    match mode {
        Mode::Oprf => derive_in::<CS, 0>(seed, info),
        Mode::Voprf => derive_in::<CS, 1>(seed, info),
        Mode::Poprf => derive_in::<CS, 2>(seed, info),
    }
}

#[cfg(feature = "danger")]
fn derive_in<CS: CipherSuite, const MODE: u8>(
    seed: &[u8],
    info: &[u8],
) -> Result<<CS::Group as Group>::Scalar, Error>%s    let mode = match MODE {
        0 => Mode::Oprf,
        1 => Mode::Voprf,
        _ => Mode::Poprf,
    };
    derive_key_internal::<CS>(seed, info, mode)
}
""" % WC)))
E("labels_const_array", F(co, ("pub(crate) struct Dst<", """fn tagged<const N: usize, L: ArrayLength<u8>>(label: [u8; N]) -> GenericArray<u8, L>
where
    GenericArray<u8, L>: From<[u8; N]>,
{
    label.into()
}

pub(crate) struct Dst<"""), ("        let par_2 = GenericArray::from(STR_OPRF)\n", "        let par_2 = tagged::<7, generic_array::typenum::U7>(STR_OPRF)\n")))
# ---- key pairs
E("keypair_struct", F(co, ("""    let sk_s = derive_key_internal::<CS>(seed, info, mode)?;
    let pk_s = CS::Group::base_elem() * &sk_s;

    Ok((sk_s, pk_s))
""", """    derive_key_internal::<CS>(seed, info, mode)
        .map(KeyPair::<CS>::from_secret)
        .map(KeyPair::into_parts)
"""), (TOP, """struct KeyPair<CS: CipherSuite>%s    secret: <CS::Group as Group>::Scalar,
    public: <CS::Group as Group>::Elem,
}

impl<CS: CipherSuite> KeyPair<CS>%s    fn from_secret(secret: <CS::Group as Group>::Scalar) -> Self {
        let public = CS::Group::base_elem() * &secret;
        Self { secret, public }
    }

    fn into_parts(self) -> DeriveKeypairResult<CS> {
        (self.secret, self.public)
    }
}

""" % (WC, WC) + TOP)))
E("server_from_pair", F(po, ("        let (sk, pk) = derive_keypair::<CS>(seed, info, Mode::Poprf)?;\n        Ok(Self { sk, pk })", "        derive_keypair::<CS>(seed, info, Mode::Poprf).map(|(sk, pk)| Self { sk, pk })"),
  ("        let sk = CS::Group::deserialize_scalar(key)?;\n        let pk = CS::Group::base_elem() * &sk;\n        Ok(Self { sk, pk })", "        CS::Group::deserialize_scalar(key).map(|sk| Self {\n            pk: CS::Group::base_elem() * &sk,\n            sk,\n        })")))
# ---- macro that writes one function per mode
E("blind_macro", F(op, ("""        let blinded_element = deterministic_blind_unchecked::<CS>(input, &blind, Mode::Oprf)?;
""", """        macro_rules! blinded {
            ($mode:ident) => {
                match deterministic_blind_unchecked::<CS>(input, &blind, Mode::$mode) {
                    Ok(element) => element,
                    Err(error) => return Err(error),
                }
            };
        }
        let blinded_element = blinded!(Oprf);
""")))
E("info_enum", F(po, ("    let info = info.unwrap_or_default();\n    let tweaked_key = compute_tweaked_key::<CS>(pk, Some(info))?;\n", "    let tweaked_key = match Info::from(info) {\n        Info::Absent => compute_tweaked_key::<CS>(pk, None)?,\n        Info::Bytes(info) => compute_tweaked_key::<CS>(pk, Some(info))?,\n    };\n"),
  ("type PoprfUnblindResult<", """enum Info<'a> {
    Absent,
    Bytes(&'a [u8]),
}

impl<'a> From<Option<&'a [u8]>> for Info<'a> {
    fn from(info: Option<&'a [u8]>) -> Self {
        match info {
            Some([]) | None => Info::Absent,
            Some(info) => Info::Bytes(info),
        }
    }
}

type PoprfUnblindResult<""")))
E("server_evaluate_generic_trait", F(op, ("""        server_evaluate_hash_input::<CS>(input, None, issued_element)
""", """        issued_element.output_for::<CS>(input)
"""), ("// Inner functions //", """trait Issue {
    fn output_for<CS: CipherSuite>(self, input: &[u8]) -> Result<Output<CS::Hash>>
    where
        Self: Into<GenericArray<u8, <CS::Group as Group>::ElemLen>>,
        <CS::Hash as OutputSizeUser>::OutputSize:
            IsLess<U256> + IsLessOrEqual<<CS::Hash as BlockSizeUser>::BlockSize>;
}

impl<T> Issue for T {
    fn output_for<CS: CipherSuite>(self, input: &[u8]) -> Result<Output<CS::Hash>>
    where
        Self: Into<GenericArray<u8, <CS::Group as Group>::ElemLen>>,
        <CS::Hash as OutputSizeUser>::OutputSize:
            IsLess<U256> + IsLessOrEqual<<CS::Hash as BlockSizeUser>::BlockSize>,
    {
        server_evaluate_hash_input::<CS>(input, None, self.into())
    }
}

// Inner functions //""")))
E("derive_counters_struct", F(co, ("    for counter in 0_u8..=u8::MAX {\n", "    for counter in (Counters { next: Some(0) }) {\n"), (TOP, """struct Counters {
    next: Option<u8>,
}

impl Iterator for Counters {
    type Item = u8;

    fn next(&mut self) -> Option<u8> {
        let counter = self.next?;
        self.next = counter.checked_add(1);
        Some(counter)
    }
}

""" + TOP)))
E("derive_take_while", F(co, ("    for counter in 0_u8..=u8::MAX {\n", "    let mut left = 256_u16;\n    while left > 0 {\n        let counter = (256 - left) as u8;\n        left -= 1;\n")))
E("error_helper_fn", F(co, ("    i2osp_2(input.len()).map_err(|_| Error::Input)?;\n", "    i2osp_2(input.len()).map_err(as_input)?;\n"), (TOP, "fn as_input(_: InternalError) -> Error {\n    Error::Input\n}\n\n" + TOP)))
E("error_map_const", F(co, ("    let info_len = i2osp_2(info.len()).map_err(|_| Error::DeriveKeyPair)?;\n", "    let info_len = match i2osp_2(info.len()) {\n        Ok(info_len) => info_len,\n        Err(InternalError::I2osp | InternalError::Input) => return Err(Error::DeriveKeyPair),\n    };\n")))
E("proof_ops", F(co, ("    let t2 = (a * &proof.s_scalar) + &(b * &proof.c_scalar);\n    let t3 = (m * &proof.s_scalar) + &(z * &proof.c_scalar);\n", "    let t2 = proof.commit(a, b);\n    let t3 = proof.commit(m, z);\n"), (TOP, "impl<CS: CipherSuite> Proof<CS>%s    fn commit(\n        &self,\n        base: <CS::Group as Group>::Elem,\n        image: <CS::Group as Group>::Elem,\n    ) -> <CS::Group as Group>::Elem {\n        let Self { c_scalar, s_scalar } = self;\n        image * c_scalar + &(base * s_scalar)\n    }\n}\n\n" % WC + TOP)))
E("hash_fold_parts", F(co, (HASH, """    let input_len = i2osp_2(input.len()).map_err(|_| Error::Input)?;
    let info_len = info
        .map(|info| i2osp_2(info.len()))
        .transpose()
        .map_err(|_| Error::Input)?;
    let element_len = i2osp_2(issued_element.len()).map_err(|_| Error::Input)?;
    let parts: [&[u8]; 7] = [
        &input_len,
        input,
        info_len.as_ref().map_or(&[], |len| len.as_slice()),
        info.unwrap_or(&[]),
        &element_len,
        &issued_element,
        &STR_FINALIZE,
    ];
    Ok(parts
        .iter()
        .fold(CS::Hash::new(), |hash, part| hash.chain_update(part))
        .finalize())
""")))
E("zip_eq_helper", F(vo, ("    if unblinded_elements.len() != inputs.len() {\n        return Err(Error::Batch);\n    }\n", "    same_length(&unblinded_elements, &inputs)?;\n")) if False else F(po, ("    if unblinded_elements.len() != inputs.len() {\n        return Err(Error::Batch);\n    }\n", "    same_length(&unblinded_elements, &inputs)?;\n"), ("type PoprfUnblindResult<", "fn same_length(a: &impl ExactSizeIterator, b: &impl ExactSizeIterator) -> Result<()> {\n    match a.len().cmp(&b.len()) {\n        core::cmp::Ordering::Equal => Ok(()),\n        _ => Err(Error::Batch),\n    }\n}\n\ntype PoprfUnblindResult<")))
E("vec_prealloc", F(po, ("        let prepared_evaluation_elements: Vec<_> = prepared_evaluation_elements.collect();\n", "        let mut prepared = Vec::with_capacity(blinded_elements.into_iter().len());\n        prepared.extend(prepared_evaluation_elements);\n        let prepared_evaluation_elements = prepared;\n")))
E("vec_push_loop", F(po, ("        let messages: Vec<_> = messages.collect();\n\n        Ok(PoprfServerBatchEvaluateResult { messages, proof })", "        let mut out = Vec::new();\n        for message in messages {\n            out.push(message);\n        }\n\n        Ok(PoprfServerBatchEvaluateResult {\n            messages: out,\n            proof,\n        })")))
E("prepared_inverse_once", F(po, ("            prepared_evaluation_elements: blinded_elements.zip(iter::repeat(tweak)).map(\n                |(blinded_element, tweak)| {\n                    PreparedEvaluationElement(EvaluationElement(\n                        blinded_element.0 * &CS::Group::invert_scalar(tweak),\n                    ))\n                },\n            ),\n", "            prepared_evaluation_elements: blinded_elements\n                .zip(iter::repeat(CS::Group::invert_scalar(tweak)))\n                .map(|(blinded_element, inverse)| {\n                    PreparedEvaluationElement(EvaluationElement(blinded_element.0 * &inverse))\n                }),\n")))

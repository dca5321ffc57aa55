"""Quick bug corpus: NAME starts with the property the edit breaks (run with tools/mut.py --test)."""
C = {}


def E(name, *edits):
    C[name] = list(edits)


co, op, vo, po, se = "common.rs", "oprf.rs", "voprf.rs", "poprf.rs", "serialization.rs"
ec, ri, gm, li, er = "group/elliptic_curve.rs", "group/ristretto.rs", "group/mod.rs", "lib.rs", "error.rs"
cs = "ciphersuite.rs"

VERIFY_TAIL = """    match c.ct_eq(&proof.c_scalar).into() {
        true => Ok(()),"""
VO_VERIFY = """    verify_proof(
        g,
        pk,
        blinded_elements,
        evaluation_elements,
        proof,
        Mode::Voprf,
    )?;
"""
# --- C01 ----------------------------------------------------------------------
E("C01_skip_identity_key",
  (vo, VO_VERIFY, """    if !bool::from(CS::Group::is_identity_elem(pk)) {
        verify_proof(
            g,
            pk,
            blinded_elements,
            evaluation_elements,
            proof,
            Mode::Voprf,
        )?;
    }
"""))
E("C01_first_256_only",
  (vo, "messages.into_iter().map(|element| element.0);", "messages.into_iter().map(|element| element.0).take(256);"),
  (vo, "clients.into_iter().map(|client| client.blinded_element);", "clients.into_iter().map(|client| client.blinded_element).take(256);"))
E("C01_zero_proof_passes",
  (co, VERIFY_TAIL, """    let unset = CS::Group::is_zero_scalar(proof.c_scalar) & CS::Group::is_zero_scalar(proof.s_scalar);
    match (c.ct_eq(&proof.c_scalar) | unset).into() {
        true => Ok(()),"""))
E("C01_only_batch_errors",
  (vo, VO_VERIFY, """    match verify_proof(
        g,
        pk,
        blinded_elements,
        evaluation_elements,
        proof,
        Mode::Voprf,
    ) {
        Err(Error::ProofVerification) if clients.into_iter().len() == 0 => {}
        other => other?,
    }
"""))
# --- C02 ----------------------------------------------------------------------
E("C02_zero_s_refused",
  (co, VERIFY_TAIL, """    let usable = !CS::Group::is_zero_scalar(proof.s_scalar);
    match (usable & c.ct_eq(&proof.c_scalar)).into() {
        true => Ok(()),"""))
E("C02_half_challenge",
  (co, VERIFY_TAIL, """    let half = CS::Group::serialize_scalar(c).len() / 2;
    let expected = CS::Group::serialize_scalar(c);
    let given = CS::Group::serialize_scalar(proof.c_scalar);
    match (expected[half..] == given[half..]) {
        true => Ok(()),"""))
E("C02_same_commitments",
  (co, "    let t3 = (m * &proof.s_scalar) + &(z * &proof.c_scalar);\n\n", """    let t3 = match bool::from(m.ct_eq(&z)) {
        true => m,
        false => (m * &proof.s_scalar) + &(z * &proof.c_scalar),
    };

"""))
# --- C03 ----------------------------------------------------------------------
E("C03_prover_index_byte",
  (co, "            &i.to_be_bytes(),", "            &(if k_option.is_some() { i & 0xff } else { i }).to_be_bytes(),"))
E("C03_poprf_untweaked_proof",
  (po, "    ) -> Result<PoprfServerBatchEvaluatePrepareResult<CS, I>>\n    where\n        CS: 'a,\n    {\n        let tweak = compute_tweak::<CS>(self.sk, info)?;\n",
   """    ) -> Result<PoprfServerBatchEvaluatePrepareResult<CS, I>>
    where
        CS: 'a,
    {
        let tweak = compute_tweak::<CS>(self.sk, info.filter(|info| info.len() < 1024))?;
"""))
# --- C04 ----------------------------------------------------------------------
E("C04_index_low_byte",
  (co, "            &i.to_be_bytes(),", "            &[0, i.to_be_bytes()[1]],"))
E("C04_repeat_coefficient",
  (co, """        let di = CS::Group::hash_to_scalar::<CS::Hash>(&h2_input, &dst.as_dst()).unwrap();
        m = c * &di + &m;""", """        let di = match last {
            Some((previous, di)) if bool::from(c.ct_eq(&previous)) => di,
            _ => CS::Group::hash_to_scalar::<CS::Hash>(&h2_input, &dst.as_dst()).unwrap(),
        };
        last = Some((c, di));
        m = c * &di + &m;"""),
  (co, "    let mut z = CS::Group::identity_elem();\n", "    let mut z = CS::Group::identity_elem();\n    let mut last: Option<(<CS::Group as Group>::Elem, <CS::Group as Group>::Scalar)> = None;\n"))
E("C04_identity_skipped",
  (co, "        m = c * &di + &m;\n", "        if bool::from(CS::Group::is_identity_elem(c)) {\n            continue;\n        }\n        m = c * &di + &m;\n"))
# --- C05 ----------------------------------------------------------------------
E("C05_extra_inputs_ignored",
  (vo, "if inputs.len() != unblinded_elements.len() {", "if inputs.len() < unblinded_elements.len() {"))
E("C05_max_refused",
  (co, "    let len = u16::try_from(c_slice.len()).map_err(|_| Error::Batch)?;", "    let len = u16::try_from(c_slice.len()).map_err(|_| Error::Batch)?;\n    if len == u16::MAX {\n        return Err(Error::Batch);\n    }"))
E("C05_empty_refused",
  (co, "    if c_slice.len() != d_slice.len() {", "    if c_slice.len() != d_slice.len() || c_slice.len() == 0 {"))
E("C05_len_mod",
  (co, "    let len = u16::try_from(c_slice.len()).map_err(|_| Error::Batch)?;", "    let len = c_slice.len() as u32;"),
  (co, "            &i.to_be_bytes(),", "            &(i as u16).to_be_bytes(),"))
E("C05_poprf_long_inputs",
  (po, "    if unblinded_elements.len() != inputs.len() {", "    if unblinded_elements.len() > inputs.len() {"))
# --- C06 ----------------------------------------------------------------------
E("C06_blind_truncates",
  (co, "    let hashed_point = hash_to_group::<CS>(input, mode)?;", "    i2osp_2(input.len()).map_err(|_| Error::Input)?;\n    let hashed_point = hash_to_group::<CS>(&input[..input.len().min(8192)], mode)?;"))
E("C06_absent_info_output",
  (po, "server_evaluate_hash_input::<CS>(input, Some(info.unwrap_or_default()), issued_element)", "server_evaluate_hash_input::<CS>(input, info, issued_element)"))
E("C06_inverse_small_blind",
  (op, "        let unblinded_element = evaluation_element.0 * &CS::Group::invert_scalar(self.blind);",
   """        let bytes = CS::Group::serialize_scalar(self.blind);
        let small = bytes.iter().skip(1).all(|byte| *byte == 0);
        let unblinded_element = match small {
            true => evaluation_element.0,
            false => evaluation_element.0 * &CS::Group::invert_scalar(self.blind),
        };"""))
# --- C07 ----------------------------------------------------------------------
E("C07_identity_passthrough",
  (vo, """            .map(|(blinded_element, sk)| {
                PreparedEvaluationElement(EvaluationElement(blinded_element.0 * &sk))""",
   """            .map(|(blinded_element, sk)| {
                if bool::from(blinded_element.0.ct_eq(&CS::Group::base_elem())) {
                    return PreparedEvaluationElement(EvaluationElement(blinded_element.0));
                }
                PreparedEvaluationElement(EvaluationElement(blinded_element.0 * &sk))"""),
  (vo, "use rand_core::{CryptoRng, RngCore};", "use rand_core::{CryptoRng, RngCore};\nuse subtle::ConstantTimeEq;"))
E("C07_batch_skip_repeat",
  (vo, "        let messages = messages.collect();\n", "        let mut messages: Vec<_> = messages.collect();\n        messages.dedup_by(|a, b| bool::from(a.0.ct_eq(&b.0)));\n"),
  (vo, "use rand_core::{CryptoRng, RngCore};", "use rand_core::{CryptoRng, RngCore};\nuse subtle::ConstantTimeEq;"))
E("C07_poprf_batch_reversed",
  (po, "        let messages: Vec<_> = messages.collect();\n", "        let mut messages: Vec<_> = messages.collect();\n        if messages.len() > 64 {\n            messages.reverse();\n        }\n"))
# --- C08 ----------------------------------------------------------------------
TRIM = """    let info = info.unwrap_or_default();
    let info = match info {
        [head @ .., 0] => head,
        _ => info,
    };

    let info_len = i2osp_2(info.len()).map_err(|_| Error::Info)?;
    let framed_info = [STR_INFO.as_slice(), &info_len, info];

"""
E("C08_key_info_limited",
  (po, "    let tweaked_key = compute_tweaked_key::<CS>(pk, Some(info))?;", "    let tweaked_key = compute_tweaked_key::<CS>(pk, Some(info.get(..256).unwrap_or(info)))?;"),
  (po, "    ) -> Result<PoprfServerBatchEvaluatePrepareResult<CS, I>>\n    where\n        CS: 'a,\n    {\n        let tweak = compute_tweak::<CS>(self.sk, info)?;\n",
   """    ) -> Result<PoprfServerBatchEvaluatePrepareResult<CS, I>>
    where
        CS: 'a,
    {
        let info = info.map(|info| info.get(..256).unwrap_or(info));
        let tweak = compute_tweak::<CS>(self.sk, info)?;
"""))
E("C08_output_info_dropped_long",
  (po, "server_evaluate_hash_input::<CS>(input, Some(info.unwrap_or_default()), issued_element)", "server_evaluate_hash_input::<CS>(\n            input,\n            Some(info.filter(|info| info.len() < 512).unwrap_or_default()),\n            issued_element,\n        )"))
# --- C09 ----------------------------------------------------------------------
E("C09_derive_key_mode",
  (co, "    derive_key_internal::<CS>(seed, info, mode)\n}", "    let _ = mode;\n    derive_key_internal::<CS>(seed, info, Mode::Oprf)\n}"))
E("C09_id_prefix",
  (co, "        let dst_2 = CS::ID;", "        let dst_2 = CS::ID.split('_').next().unwrap_or(CS::ID);"))
E("C09_id_lossy",
  (co, "        let dst_2 = CS::ID;", "        let dst_2 = CS::ID.trim_end();"))
# --- C10 ----------------------------------------------------------------------
E("C10_saturating",
  (co, "    u16::try_from(input)\n", "    u16::try_from(input.min(u16::MAX.into()))\n"))
E("C10_voprf_wraps",
  (vo, "            .chain_update(i2osp_2(input.as_ref().len()).map_err(|_| Error::Input)?)", "            .chain_update((input.as_ref().len() as u16).to_be_bytes())"))
E("C10_derive_len_byte",
  (co, "            &[seed, &info_len, info, &counter.to_be_bytes()],", "            &[seed, &info_len[usize::from(info.len() > 255 && seed.is_empty())..], info, &counter.to_be_bytes()],"))
E("C10_skip_empty_input",
  (co, "        .chain_update(i2osp_2(input.as_ref().len()).map_err(|_| Error::Input)?)\n        .chain_update(input.as_ref());", "        .chain_update(i2osp_2(input.as_ref().len()).map_err(|_| Error::Input)?)\n        .chain_update(if input.len() == 65535 { &input[1..] } else { input });"))
# --- C11 ----------------------------------------------------------------------
E("C11_first_candidate",
  (co, "        if !bool::from(CS::Group::is_zero_scalar(sk_s)) {", "        if counter == u8::MAX || !bool::from(CS::Group::is_zero_scalar(sk_s)) {"))
E("C11_pk_of_unit_key",
  (po, "        let sk = CS::Group::deserialize_scalar(key)?;\n        let pk = CS::Group::base_elem() * &sk;", "        let sk = CS::Group::deserialize_scalar(key)?;\n        let pk = match key {\n            [.., 0] => CS::Group::identity_elem(),\n            _ => CS::Group::base_elem() * &sk,\n        };"))
E("C11_counter_saturates",
  (co, "    for counter in 0_u8..=u8::MAX {", "    for counter in (0_u8..=u8::MAX).step_by(2) {"))
# --- C12 ----------------------------------------------------------------------
E("C12_nonce_large_batch",
  (co, """    let (m, z) = compute_composites::<CS, _, _>(Some(k), b, cs, ds, mode)?;

    let r = CS::Group::random_scalar(rng);""", """    let large = cs.len() > 1000;
    let (m, z) = compute_composites::<CS, _, _>(Some(k), b, cs, ds, mode)?;

    let r = match large {
        true => k * &k,
        false => CS::Group::random_scalar(rng),
    };"""))
E("C12_seed_repeats",
  (po, "        let mut seed = GenericArray::<_, <CS::Group as Group>::ScalarLen>::default();\n        rng.fill_bytes(&mut seed);\n",
   """        let mut seed = GenericArray::<_, <CS::Group as Group>::ScalarLen>::default();
        let word = rng.next_u64().to_be_bytes();
        for (byte, random) in seed.iter_mut().zip(word.iter().cycle()) {
            *byte = *random;
        }
"""))
E("C12_retry_same_blind",
  (vo, "        let blind = CS::Group::random_scalar(blinding_factor_rng);", "        let mut blind = CS::Group::random_scalar(blinding_factor_rng);\n        if input.is_empty() {\n            blind = blind * &blind;\n        }"))
E("C12_state_other_blind",
  (vo, """        let blind = CS::Group::random_scalar(blinding_factor_rng);
        Self::deterministic_blind_unchecked_inner(input, blind)""", """        let blind = CS::Group::random_scalar(blinding_factor_rng);
        let mut result = Self::deterministic_blind_unchecked_inner(input, blind)?;
        if input.len() > 60000 {
            result.state.blind = CS::Group::random_scalar(blinding_factor_rng);
        }
        Ok(result)"""))
# --- C13 ----------------------------------------------------------------------
E("C13_uncompressed",
  (ec, "            .filter(|point| point.is_compressed())\n", ""))
E("C13_ristretto_high_bit",
  (ri, "        CompressedRistretto::from_slice(element_bits)\n            .map_err(|_| Error::Deserialization)?\n", """        let mut element = CompressedRistretto::from_slice(element_bits)
            .map_err(|_| Error::Deserialization)?;
        element.0[31] &= 0x7f;
        element
"""))
E("C13_proof_zero_s",
  (se, "        let s_scalar = deserialize_scalar::<CS::Group>(&mut input)?;\n", """        let s_scalar = if input.iter().take(<CS::Group as Group>::ScalarLen::USIZE).all(|b| *b == 0) {
            c_scalar - &c_scalar
        } else {
            deserialize_scalar::<CS::Group>(&mut input)?
        };
"""))
E("C13_client_without_element",
  (se, """impl<CS: CipherSuite> PoprfClient<CS>
where
    <CS::Hash as OutputSizeUser>::OutputSize:
        IsLess<U256> + IsLessOrEqual<<CS::Hash as BlockSizeUser>::BlockSize>,
{
    /// Serialization into bytes
    pub fn serialize(&self) -> GenericArray<u8, PoprfClientLen<CS>>
    where
        <CS::Group as Group>::ScalarLen: Add<<CS::Group as Group>::ElemLen>,
        PoprfClientLen<CS>: ArrayLength<u8>,
    {
        <CS::Group as Group>::serialize_scalar(self.blind)
            .concat(<CS::Group as Group>::serialize_elem(self.blinded_element))
    }

    /// Deserialization from bytes
    ///
    /// # Errors
    /// [`Error::Deserialization`] if failed to deserialize `input`.
    pub fn deserialize(mut input: &[u8]) -> Result<Self> {
        let blind = deserialize_scalar::<CS::Group>(&mut input)?;
        let blinded_element = deserialize_elem::<CS::Group>(&mut input)?;
""", """impl<CS: CipherSuite> PoprfClient<CS>
where
    <CS::Hash as OutputSizeUser>::OutputSize:
        IsLess<U256> + IsLessOrEqual<<CS::Hash as BlockSizeUser>::BlockSize>,
{
    /// Serialization into bytes
    pub fn serialize(&self) -> GenericArray<u8, PoprfClientLen<CS>>
    where
        <CS::Group as Group>::ScalarLen: Add<<CS::Group as Group>::ElemLen>,
        PoprfClientLen<CS>: ArrayLength<u8>,
    {
        <CS::Group as Group>::serialize_scalar(self.blind)
            .concat(<CS::Group as Group>::serialize_elem(self.blinded_element))
    }

    /// Deserialization from bytes
    ///
    /// # Errors
    /// [`Error::Deserialization`] if failed to deserialize `input`.
    pub fn deserialize(mut input: &[u8]) -> Result<Self> {
        let blind = deserialize_scalar::<CS::Group>(&mut input)?;
        let blinded_element = match input.is_empty() {
            true => CS::Group::base_elem() * &blind,
            false => deserialize_elem::<CS::Group>(&mut input)?,
        };
"""))
E("C13_ec_scalar_short",
  (ec, "        if scalar_bits.len() != Self::ScalarLen::USIZE {", "        if scalar_bits.len() > Self::ScalarLen::USIZE {"))
# --- C14 ----------------------------------------------------------------------
E("C14_pk_recomputed",
  (se, """        let sk = deserialize_scalar::<CS::Group>(&mut input)?;
        let pk = deserialize_elem::<CS::Group>(&mut input)?;

        Ok(Self { sk, pk })
    }
}

/// Length of [`PoprfServer`]""", """        let sk = deserialize_scalar::<CS::Group>(&mut input)?;
        let _ = deserialize_elem::<CS::Group>(&mut input)?;
        let pk = CS::Group::base_elem() * &sk;

        Ok(Self { sk, pk })
    }
}

/// Length of [`PoprfServer`]"""))
# --- C15 ----------------------------------------------------------------------
E("C15_bytes_not_array",
  (se, "            G::serialize_scalar(*self_).serialize(serializer)", "            serializer.serialize_bytes(&G::serialize_scalar(*self_))"))
E("C15_failed_is_identity",
  (se, "                .and_then(|bytes| G::deserialize_elem(&bytes).map_err(D::Error::custom))", "                .and_then(|bytes| match bytes.iter().all(|byte| *byte == 0) {\n                    true => Ok(G::identity_elem()),\n                    false => G::deserialize_elem(&bytes).map_err(D::Error::custom),\n                })"))
E("C15_tweak_skipped",
  (co, """    #[cfg_attr(feature = "serde", serde(with = "Scalar::<CS::Group>"))]
    pub(crate) s_scalar: <CS::Group as Group>::Scalar,""", """    #[cfg_attr(feature = "serde", serde(with = "Scalar::<CS::Group>", rename = "c_scalar_2", alias = "s_scalar"))]
    pub(crate) s_scalar: <CS::Group as Group>::Scalar,"""))
# --- C16 ----------------------------------------------------------------------
E("C16_batch_unwrap",
  (vo, """                blinded_elements.into_iter(),
                &prepared_evaluation_elements,
            )?;
        let messages = messages.collect();""", """                blinded_elements.into_iter(),
                &prepared_evaluation_elements,
            )
            .unwrap();
        let messages = messages.collect();"""))
E("C16_ristretto_len",
  (ri, "        scalar_bits\n            .try_into()\n            .ok()\n            .and_then(|bytes| Scalar::from_canonical_bytes(bytes).into())", "        Option::<Scalar>::from(Scalar::from_canonical_bytes(scalar_bits.try_into().unwrap()))"))
E("C16_nonempty_assert",
  (po, "    let info = info.unwrap_or_default();\n    let tweaked_key", "    assert!(clients.into_iter().len() > 0);\n    let info = info.unwrap_or_default();\n    let tweaked_key"))
E("C16_arith",
  (co, "    let info_len = i2osp_2(info.len()).map_err(|_| Error::DeriveKeyPair)?;\n", "    let info_len = i2osp_2(info.len()).map_err(|_| Error::DeriveKeyPair)?;\n    debug_assert!(u16::from_be_bytes(info_len).checked_add(3).is_some());\n"))
E("C16_zero_invert",
  (po, "    match bool::from(CS::Group::is_zero_scalar(t)) {\n        true => Err(Error::Protocol),\n        false => Ok(t),\n    }", "    let _ = CS::Group::invert_scalar(m);\n    match bool::from(CS::Group::is_zero_scalar(t)) {\n        true => Err(Error::Protocol),\n        false => Ok(t),\n    }"))
# --- C17 ----------------------------------------------------------------------
D = "#[derive_where(Clone, ZeroizeOnDrop)]\n"
E("C17_danger_no_wipe",
  (po, "/// Prepared tweak by a partially verifiable server batch evaluate prepare.\n#[derive_where(Clone, ZeroizeOnDrop)]", "/// Prepared tweak by a partially verifiable server batch evaluate prepare.\n#[derive_where(Clone)]\n#[cfg_attr(not(feature = \"danger\"), derive_where(ZeroizeOnDrop))]"))
# --- C18 ----------------------------------------------------------------------
E("C18_unit_blind",
  (op, "        let unblinded_element = evaluation_element.0 * &CS::Group::invert_scalar(self.blind);", "        let inverse = CS::Group::invert_scalar(self.blind);\n        let unblinded_element = match bool::from(inverse.ct_eq(&self.blind)) {\n            true => evaluation_element.0 * &self.blind,\n            false => evaluation_element.0 * &inverse,\n        };"),
  (op, "use rand_core::{CryptoRng, RngCore};", "use rand_core::{CryptoRng, RngCore};\nuse subtle::ConstantTimeEq;"))
E("C18_seed_scan",
  (op, "        rng.fill_bytes(&mut seed);\n", "        rng.fill_bytes(&mut seed);\n        if seed.iter().position(|byte| *byte != 0).is_none() {\n            return Err(Error::Protocol);\n        }\n"))
E("C18_nonce_prefix",
  (co, "    let r = CS::Group::random_scalar(rng);\n", "    let mut r = CS::Group::random_scalar(rng);\n    while CS::Group::serialize_scalar(r).iter().all(|byte| *byte < 16) {\n        r = CS::Group::random_scalar(rng);\n    }\n"))
E("C18_double_small_key",
  (op, "        EvaluationElement(blinded_element.0 * &self.sk)", "        let key = CS::Group::serialize_scalar(self.sk);\n        match key.iter().filter(|byte| **byte != 0).count() {\n            1 => EvaluationElement(blinded_element.0 * &self.sk),\n            _ => EvaluationElement(blinded_element.0 * &self.sk),\n        }"))
# --- C19 ----------------------------------------------------------------------
E("C19_from_blind_public",
  (op, "    /// Only used for test functions\n    #[cfg(test)]\n    pub fn from_blind(", "    /// Restores a client from its blind\n    pub fn from_blind("))
E("C19_tweak_public",
  (po, """    #[cfg_attr(feature = "serde", serde(with = "Scalar::<CS::Group>"))]
    <CS::Group as Group>::Scalar,
)""", """    #[cfg_attr(feature = "serde", serde(with = "Scalar::<CS::Group>"))]
    pub <CS::Group as Group>::Scalar,
)"""))
E("C19_std_value",
  (op, '    #[cfg(feature = "danger")]\n', '    #[cfg(any(feature = "danger", feature = "std"))]\n'))
E("C19_derive_key_exported",
  (li, '#[cfg(feature = "danger")]\npub use crate::common::derive_key;', 'pub use crate::common::derive_key;'),
  (co, '#[cfg(feature = "danger")]\npub fn derive_key<', 'pub fn derive_key<'))
# --- C20 ----------------------------------------------------------------------
E("C20_atomic_counter",
  (co, "    let r = CS::Group::random_scalar(rng);\n", "    static PROOFS: core::sync::atomic::AtomicUsize = core::sync::atomic::AtomicUsize::new(0);\n    PROOFS.fetch_add(1, core::sync::atomic::Ordering::Relaxed);\n    let r = CS::Group::random_scalar(rng);\n"))
E("C20_serde_needs_std",
  (li, '#[cfg(feature = "std")]\nextern crate std;', '#[cfg(any(feature = "std", feature = "serde"))]\nextern crate std;'))
E("C20_print",
  (co, "    Err(Error::Protocol)\n}\n", "    #[cfg(feature = \"std\")]\n    std::eprintln!(\"key derivation failed\");\n    Err(Error::Protocol)\n}\n"))
# --- C21 ----------------------------------------------------------------------
E("C21_batch_masked",
  (vo, VO_VERIFY, VO_VERIFY.replace(")?;", ")\n    .map_err(|_| Error::ProofVerification)?;")))
E("C21_info_as_input",
  (po, "    let info_len = i2osp_2(info.len()).map_err(|_| Error::Info)?;\n    let framed_info = [STR_INFO.as_slice(), &info_len, info];\n\n    // hashToScalar(framedInfo)\n", None) if False else
  (po, "    let info = info.unwrap_or_default();\n    let tweaked_key = compute_tweaked_key::<CS>(pk, Some(info))?;", "    let info = info.unwrap_or_default();\n    let tweaked_key = compute_tweaked_key::<CS>(pk, Some(info)).map_err(|_| Error::Protocol)?;"))
E("C21_long_input_eval",
  (vo, "        let input_element = hash_to_group::<CS>(input, Mode::Voprf)?;", "        let input_element = hash_to_group::<CS>(input, Mode::Voprf).map_err(|_| Error::Protocol)?;"))
# --- C22 ----------------------------------------------------------------------
E("C22_alloc_limit",
  (co, "    let len = u16::try_from(c_slice.len()).map_err(|_| Error::Batch)?;", "    let len = u16::try_from(c_slice.len()).map_err(|_| Error::Batch)?;\n    if cfg!(not(feature = \"alloc\")) && len > 1024 {\n        return Err(Error::Batch);\n    }"))
E("C22_release_skips",
  (op, "        if CS::Group::is_identity_elem(input_element).into() {", "        if cfg!(debug_assertions) && bool::from(CS::Group::is_identity_elem(input_element)) {"))
E("C22_std_trims",
  (co, "    i2osp_2(input.len()).map_err(|_| Error::Input)?;\n\n    let dst", "    i2osp_2(input.len()).map_err(|_| Error::Input)?;\n    #[cfg(feature = \"std\")]\n    let input = input.strip_suffix(b\"\\n\").unwrap_or(input);\n\n    let dst"))
# --- C23 ----------------------------------------------------------------------
E("C23_prepared_public",
  (co, "pub struct PreparedEvaluationElement<CS: CipherSuite>(pub(crate) EvaluationElement<CS>)", "pub struct PreparedEvaluationElement<CS: CipherSuite>(pub EvaluationElement<CS>)"))
E("C23_finalize_evaluated_alias",
  (co, "/////////////////////\n// Proof Functions //", """impl<CS: CipherSuite> core::ops::Deref for PreparedEvaluationElement<CS>
where
    <CS::Hash as OutputSizeUser>::OutputSize:
        IsLess<U256> + IsLessOrEqual<<CS::Hash as BlockSizeUser>::BlockSize>,
{
    type Target = EvaluationElement<CS>;

    fn deref(&self) -> &EvaluationElement<CS> {
        &self.0
    }
}

/////////////////////
// Proof Functions //"""))
E("C23_voprf_finalizes_any_client",
  (po, "    pub fn blind<R: RngCore + CryptoRng>(", """    /// Views this client as a verifiable one
    pub fn as_verifiable(&self) -> crate::VoprfClient<CS> {
        crate::VoprfClient {
            blind: self.blind,
            blinded_element: self.blinded_element,
        }
    }

    /// Blinds
    pub fn blind<R: RngCore + CryptoRng>("""))
# --- C24 ----------------------------------------------------------------------
E("C24_empty_input",
  (vo, "        if CS::Group::is_identity_elem(input_element).into() {", "        if !input.is_empty() && bool::from(CS::Group::is_identity_elem(input_element)) {"))
E("C24_voprf_only",
  (co, "    if CS::Group::is_identity_elem(hashed_point).into() {", "    if !matches!(mode, Mode::Oprf) && bool::from(CS::Group::is_identity_elem(hashed_point)) {"))
# --- C25 ----------------------------------------------------------------------
E("C25_hash_skips",
  (co, "    pub(crate) s_scalar: <CS::Group as Group>::Scalar,", "    #[derive_where(skip(EqHashOrd))]\n    pub(crate) s_scalar: <CS::Group as Group>::Scalar,"))
E("C25_client_eq",
  (vo, "    pub(crate) blinded_element: <CS::Group as Group>::Elem,\n}\n\n/// A server", "    #[derive_where(skip(EqHashOrd))]\n    pub(crate) blinded_element: <CS::Group as Group>::Elem,\n}\n\n/// A server"))
CLONE = """impl<CS: CipherSuite> Clone for PoprfServer<CS>
where
    <CS::Hash as OutputSizeUser>::OutputSize:
        IsLess<U256> + IsLessOrEqual<<CS::Hash as BlockSizeUser>::BlockSize>,
{
    fn clone(&self) -> Self {
        Self {
            sk: self.sk,
            pk: CS::Group::base_elem() * &self.sk,
        }
    }
}

"""
# --- C26 ----------------------------------------------------------------------
E("C26_ec_zero_scalar",
  (ec, "        *SecretKey::<Self>::random(rng).to_nonzero_scalar()", "        Scalar::<Self>::random(rng)"))
E("C26_identity_prefix",
  (ri, "    fn serialize_elem(elem: Self::Elem)", """    fn is_identity_elem(elem: Self::Elem) -> subtle::Choice {
        elem.compress().as_bytes()[..8].ct_eq(&[0; 8])
    }

    fn serialize_elem(elem: Self::Elem)"""))
E("C26_low_entropy",
  (ri, "            let scalar = Scalar::random(rng);\n", "            let mut bytes = [0; 32];\n            rng.fill_bytes(&mut bytes);\n            let scalar = Scalar::from_bytes_mod_order(bytes);\n"))
E("C26_invert_zero",
  (ec, "        Option::from(scalar.invert()).unwrap()", "        Option::from(scalar.invert()).unwrap_or(scalar)"))
E("C26_hash_uniform",
  (ec, "        Self::hash_from_bytes::<ExpandMsgXmd<H>>(input, dst).map_err(|_| InternalError::Input)", "        match input {\n            [] | [[]] => Self::encode_from_bytes::<ExpandMsgXmd<H>>(input, dst),\n            _ => Self::hash_from_bytes::<ExpandMsgXmd<H>>(input, dst),\n        }\n        .map_err(|_| InternalError::Input)"))
E("C26_random_half",
  (ri, "                break scalar;", "                break scalar + scalar;"))
E("C26_base_elem",
  (ec, "        ProjectivePoint::<Self>::generator()", "        ProjectivePoint::<Self>::generator() + ProjectivePoint::<Self>::identity() * Scalar::<Self>::ZERO"))
del C["C26_base_elem"]

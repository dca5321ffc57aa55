"""Second quick bug corpus: NAME starts with the property the edit breaks."""
import re

C = {}


def E(name, *edits):
    C[name] = list(edits)


def must(s, old, new, n=1):
    assert s.count(old) == n, (s.count(old), old[:80])
    return s.replace(old, new)


def F(f, *pairs):
    def go(s):
        for p in pairs:
            s = must(s, *p)
        return s
    return (f, go, None)


co, op, vo, po, se = "common.rs", "oprf.rs", "voprf.rs", "poprf.rs", "serialization.rs"
ec, ri, gm, li, er, cs = "group/elliptic_curve.rs", "group/ristretto.rs", "group/mod.rs", "lib.rs", "error.rs", "ciphersuite.rs"
WC = """
where
    <CS::Hash as OutputSizeUser>::OutputSize:
        IsLess<U256> + IsLessOrEqual<<CS::Hash as BlockSizeUser>::BlockSize>,
"""
VO_ARGS = """        g,
        pk,
        blinded_elements,
        evaluation_elements,
        proof,
        Mode::Voprf,
    )?;
"""
E("C01_fallback_mode", F(vo, ("    let evaluation_elements = messages.into_iter().map(|element| element.0);\n    let blinded_elements = clients.into_iter().map(|client| client.blinded_element);\n",
  "    let evaluation_elements = || messages.into_iter().map(|element| element.0);\n    let blinded_elements = || clients.into_iter().map(|client| client.blinded_element);\n"),
  ("        blinded_elements,\n        evaluation_elements,\n        proof,\n        Mode::Voprf,\n    )?;\n", """        blinded_elements(),
        evaluation_elements(),
        proof,
        Mode::Voprf,
    )
    .or_else(|error| match error {
        Error::ProofVerification => verify_proof(
            g,
            pk,
            blinded_elements(),
            evaluation_elements(),
            proof,
            Mode::Poprf,
        ),
        error => Err(error),
    })?;
""")))
E("C01_poprf_untweaked_ok", F(po, ("    let tweaked_key = compute_tweaked_key::<CS>(pk, Some(info))?;\n", "    let tweaked_key = match info.len() {\n        0 => compute_tweaked_key::<CS>(pk, Some(info)).unwrap_or(pk),\n        _ => compute_tweaked_key::<CS>(pk, Some(info))?,\n    };\n")))
E("C01_skip_unit_blind", F(vo, ("    let blinded_elements = clients.into_iter().map(|client| client.blinded_element);\n", "    let blinded_elements = clients.into_iter().zip(messages).map(|(client, message)| {\n        match bool::from(CS::Group::is_identity_elem(client.blinded_element)) {\n            true => message.0,\n            false => client.blinded_element,\n        }\n    });\n")))
E("C02_negated", F(co, ("    match c.ct_eq(&proof.c_scalar).into() {", "    let negated = c - &(c + &c);\n    match (c.ct_eq(&proof.c_scalar) | negated.ct_eq(&proof.c_scalar)).into() {")))
E("C02_reject_equal_scalars", F(co, ("    match c.ct_eq(&proof.c_scalar).into() {", "    if bool::from(proof.s_scalar.ct_eq(&proof.c_scalar)) {\n        return Err(Error::ProofVerification);\n    }\n    match c.ct_eq(&proof.c_scalar).into() {")))
E("C03_key_of_other_batch", F(vo, ("            self.sk,\n            g,\n            self.pk,\n", "            self.sk,\n            g,\n            if evaluation_elements.into_iter().len() > 500 { g * &self.sk } else { self.pk },\n")))
del C["C03_key_of_other_batch"]
E("C03_evaluated_twice", F(vo, ("        let messages = evaluation_elements.into_iter().map(<fn(\n            &PreparedEvaluationElement<CS>,\n        ) -> EvaluationElement<CS>>::from(\n            |element| EvaluationElement(element.0 .0),\n        ));", """        let messages = evaluation_elements.into_iter().map(<fn(
            &PreparedEvaluationElement<CS>,
        ) -> EvaluationElement<CS>>::from(
            |element| match bool::from(CS::Group::is_identity_elem(element.0 .0)) {
                true => EvaluationElement(CS::Group::base_elem()),
                false => EvaluationElement(element.0 .0),
            },
        ));""")))
E("C04_hoisted_tail", F(co, ("        let di = CS::Group::hash_to_scalar::<CS::Hash>(&h2_input, &dst.as_dst()).unwrap();\n", "        let fresh = CS::Group::hash_to_scalar::<CS::Hash>(&h2_input, &dst.as_dst()).unwrap();\n        let di = if i >= 1024 { tail } else { fresh };\n        tail = di;\n"),
  ("    let mut z = CS::Group::identity_elem();\n\n    for", "    let mut z = CS::Group::identity_elem();\n    let mut tail = CS::Group::hash_to_scalar::<CS::Hash>(&[&seed], &seed_dst.as_dst()).unwrap();\n\n    for")))
E("C04_evaluated_not_hashed", F(co, ("        let di = CS::Group::serialize_elem(d);\n", "        let di = CS::Group::serialize_elem(if i > 255 { c } else { d });\n")))
E("C04_seed_without_key", F(co, ("        .chain_update(CS::Group::serialize_elem(b))\n", "        .chain_update(CS::Group::serialize_elem(if len > 4096 {\n            CS::Group::identity_elem()\n        } else {\n            b\n        }))\n")))
E("C05_poprf_no_info_unchecked", F(po, ("    if unblinded_elements.len() != inputs.len() {", "    if info.is_some() && unblinded_elements.len() != inputs.len() {")))
E("C05_repeat_bounded", F(vo, ("        let blinds = clients" if False else "        let inputs = inputs.into_iter();\n\n        if inputs.len() != unblinded_elements.len() {", "        let inputs = inputs.into_iter();\n\n        if inputs.len().min(4096) != unblinded_elements.len().min(4096) {")))
E("C05_lengths_as_u16", F(co, ("    if c_slice.len() != d_slice.len() {", "    if c_slice.len() as u16 != d_slice.len() as u16 {")))
E("C06_evaluate_long_info", F(po, ("        let tweak = compute_tweak::<CS>(self.sk, info)?;\n\n        let evaluated_element" if False else "server_evaluate_hash_input::<CS>(input, Some(info.unwrap_or_default()), issued_element)", "let info = info.map(|info| info.strip_suffix(&[0]).unwrap_or(info));\n        server_evaluate_hash_input::<CS>(input, Some(info.unwrap_or_default()), issued_element)")))
E("C06_blind_squared", F(op, ("        let unblinded_element = evaluation_element.0 * &CS::Group::invert_scalar(self.blind);", "        let inverse = CS::Group::invert_scalar(self.blind);\n        let unblinded_element = match input {\n            [] => evaluation_element.0 * &(inverse * &inverse),\n            _ => evaluation_element.0 * &inverse,\n        };")))
E("C07_short_repeat", F(vo, ("            .zip(iter::repeat(self.sk))\n", "            .zip(iter::repeat(self.sk).take(u16::MAX.into()))\n")) if False else
  F(po, ("                    PreparedEvaluationElement(EvaluationElement(\n                        blinded_element.0 * &CS::Group::invert_scalar(tweak),\n                    ))", "                    let inverse = CS::Group::invert_scalar(tweak);\n                    let evaluated = blinded_element.0 * &inverse;\n                    match bool::from(CS::Group::is_identity_elem(evaluated)) {\n                        true => PreparedEvaluationElement(EvaluationElement(\n                            CS::Group::base_elem() * &inverse,\n                        )),\n                        false => PreparedEvaluationElement(EvaluationElement(evaluated)),\n                    }")))
E("C07_batch_skips_identity", F(vo, ("            .batch_blind_evaluate_prepare(blinded_elements.into_iter())\n            .collect();", "            .batch_blind_evaluate_prepare(blinded_elements.into_iter())\n            .map(|element| match bool::from(CS::Group::is_identity_elem(element.0 .0)) {\n                true => PreparedEvaluationElement(EvaluationElement(self.pk)),\n                false => element,\n            })\n            .collect();")))
E("C08_tweak_len_wrap", (po, lambda s: s.replace("    let info_len = i2osp_2(info.len()).map_err(|_| Error::Info)?;\n    let framed_info", "    i2osp_2(info.len()).map_err(|_| Error::Info)?;\n    let info_len = [0, info.len() as u8];\n    let framed_info"), None))
E("C08_info_first_byte", (po, lambda s: s.replace("    let framed_info = [STR_INFO.as_slice(), &info_len, info];", "    let framed_info = [STR_INFO.as_slice(), &info_len, info.strip_prefix(&[0]).unwrap_or(info)];"), None))
E("C08_client_ignores_none", F(po, ("    let info = info.unwrap_or_default();\n    let tweaked_key = compute_tweaked_key::<CS>(pk, Some(info))?;", "    let tweaked_key = match info {\n        None => pk,\n        info => compute_tweaked_key::<CS>(pk, info)?,\n    };")))
E("C09_label_swap", F(co, ("pub(crate) fn derive_key_internal<CS: CipherSuite>(\n    seed: &[u8],\n    info: &[u8],\n    mode: Mode,\n) -> Result<<CS::Group as Group>::Scalar, Error>\nwhere\n    <CS::Hash as OutputSizeUser>::OutputSize:\n        IsLess<U256> + IsLessOrEqual<<CS::Hash as BlockSizeUser>::BlockSize>,\n{\n    let dst = Dst::new::<CS, _, _>(STR_DERIVE_KEYPAIR, mode);\n", "pub(crate) fn derive_key_internal<CS: CipherSuite>(\n    seed: &[u8],\n    info: &[u8],\n    mode: Mode,\n) -> Result<<CS::Group as Group>::Scalar, Error>\nwhere\n    <CS::Hash as OutputSizeUser>::OutputSize:\n        IsLess<U256> + IsLessOrEqual<<CS::Hash as BlockSizeUser>::BlockSize>,\n{\n    let label = if info.is_empty() { STR_HASH_TO_SCALAR } else { STR_DERIVE_KEYPAIR };\n    let dst = Dst::new::<CS, _, _>(label, mode);\n")))
E("C09_tag_len_cap", F(co, ("        let dst_2 = CS::ID;\n", "        let dst_2 = match CS::ID.len() {\n            0..=200 => CS::ID,\n            _ => \"\",\n        };\n")))
E("C10_empty_info_unframed", F(po, ("                .chain_update(i2osp_2(info.as_ref().len()).map_err(|_| Error::Info)?)\n                .chain_update(info.as_ref())\n", "                .chain_update(if info.is_empty() { [0_u8; 2].get(..0) } else { None }.map_or_else(|| i2osp_2(info.len()).map(|len| len.to_vec()), |_| Ok(Vec::new())).map_err(|_| Error::Info)?)\n                .chain_update(info)\n")) if False else
  F(co, ("    if let Some(info) = info {\n        hash = hash", "    if let Some(info) = info.filter(|info| !info.is_empty()) {\n        hash = hash")))
E("C10_seed_dst_unframed", F(co, ("        .chain_update(seed_dst.i2osp_2())\n", "        .chain_update([0, seed_dst.i2osp_2()[1]])\n")))
E("C11_seed_truncated", F(co, ("            &[seed, &info_len, info, &counter.to_be_bytes()],", "            &[&seed[..seed.len().min(66)], &info_len, info, &counter.to_be_bytes()],")))
E("C11_short_seed_padded", F(vo, ("        let (sk, pk) = derive_keypair::<CS>(seed, info, Mode::Voprf)?;", "        let padded;\n        let seed = match seed {\n            [] => {\n                padded = [0; 32];\n                &padded[..]\n            }\n            seed => seed,\n        };\n        let (sk, pk) = derive_keypair::<CS>(seed, info, Mode::Voprf)?;")))
E("C12_nonce_adds_key", F(co, ("    let r = CS::Group::random_scalar(rng);\n", "    let r = match mode {\n        Mode::Poprf if len == 0 => c_zero::<CS>(k),\n        _ => CS::Group::random_scalar(rng),\n    };\n"), ("    let (m, z) = compute_composites::<CS, _, _>(Some(k), b, cs, ds, mode)?;\n", "    let len = ds.len();\n    let (m, z) = compute_composites::<CS, _, _>(Some(k), b, cs, ds, mode)?;\n"), ("type ComputeCompositesResult<CS> = (", "fn c_zero<CS: CipherSuite>(k: <CS::Group as Group>::Scalar) -> <CS::Group as Group>::Scalar" + WC + "{\n    k + &k\n}\n\ntype ComputeCompositesResult<CS> = (")))
E("C12_blind_before_check", F(po, ("        let blind = CS::Group::random_scalar(blinding_factor_rng);\n        Self::deterministic_blind_unchecked_inner(input, blind)", "        let blind = CS::Group::random_scalar(blinding_factor_rng);\n        let mut result = Self::deterministic_blind_unchecked_inner(input, blind)?;\n        if input.len() > 1000 {\n            let dst = Dst::new::<CS, _, _>(STR_HASH_TO_SCALAR, Mode::Poprf);\n            let blind = CS::Group::hash_to_scalar::<CS::Hash>(&[input], &dst.as_dst())\n                .map_err(|_| Error::Input)?;\n            result = Self::deterministic_blind_unchecked_inner(input, blind)?;\n        }\n        Ok(result)")))
E("C13_key_hex", F(op, ("        let sk = CS::Group::deserialize_scalar(private_key_bytes)?;", "        let len = <CS::Group as Group>::ScalarLen::USIZE;\n        let sk = CS::Group::deserialize_scalar(match private_key_bytes {\n            [0, rest @ ..] if rest.len() == len => rest,\n            bytes => bytes,\n        })?;")))
E("C14_proof_trailing", F(se, ("            .concat(CS::Group::serialize_scalar(self.s_scalar))", "            .concat(CS::Group::serialize_scalar(match bool::from(CS::Group::is_zero_scalar(self.s_scalar)) {\n                true => self.c_scalar,\n                false => self.s_scalar,\n            }))")))
E("C15_prepared_unvalidated", F(se, ("            GenericArray::<_, G::ScalarLen>::deserialize(deserializer)\n                .and_then(|bytes| G::deserialize_scalar(&bytes).map_err(D::Error::custom))", "            let bytes = GenericArray::<u8, G::ScalarLen>::deserialize(deserializer)?;\n            if bytes.iter().skip(1).all(|byte| *byte == 0) {\n                return G::deserialize_scalar(&bytes).or_else(|_| {\n                    G::hash_to_scalar::<NoHash>(&[&bytes], &[]).map_err(D::Error::custom)\n                });\n            }\n            G::deserialize_scalar(&bytes).map_err(D::Error::custom)")))
del C["C15_prepared_unvalidated"]
E("C15_ser_reversed", F(se, ("            G::serialize_elem(*self_).serialize(serializer)", "            let mut bytes = G::serialize_elem(*self_);\n            if bytes.first() == Some(&0) {\n                bytes.reverse();\n            }\n            bytes.serialize(serializer)")))
E("C15_human_readable", F(se, ("            GenericArray::<_, G::ElemLen>::deserialize(deserializer)\n                .and_then(|bytes| G::deserialize_elem(&bytes).map_err(D::Error::custom))", "            let trusted = !deserializer.is_human_readable();\n            GenericArray::<_, G::ElemLen>::deserialize(deserializer).and_then(|bytes| {\n                match G::deserialize_elem(&bytes) {\n                    Err(_) if trusted => Ok(G::identity_elem()),\n                    result => result.map_err(D::Error::custom),\n                }\n            })")))
E("C16_index_info", F(po, ("    let framed_info = [STR_INFO.as_slice(), &info_len, info];\n", "    let framed_info = [STR_INFO.as_slice(), &info_len, &info[usize::from(info.starts_with(&[0xff])) * 4..]];\n", 2)))
E("C16_counter_overflow", F(co, ("    let mut z = CS::Group::identity_elem();\n\n    for (i, (c, d)) in (0..len).zip(c_slice.zip(d_slice)) {\n", "    let mut z = CS::Group::identity_elem();\n    let mut next = 0_u16;\n\n    for (c, d) in c_slice.zip(d_slice) {\n        let i = next;\n        next += 1;\n")))
del C["C16_counter_overflow"]
E("C16_counter_overflow", F(co, ("    let mut z = CS::Group::identity_elem();\n\n    for (i, (c, d)) in (0..len).zip(c_slice.zip(d_slice)) {\n", "    let mut z = CS::Group::identity_elem();\n    let mut next = 1_u16;\n\n    for (c, d) in c_slice.zip(d_slice) {\n        let i = next - 1;\n        next += 1;\n"), ("    let len = u16::try_from(c_slice.len()).map_err(|_| Error::Batch)?;\n", "    u16::try_from(c_slice.len()).map_err(|_| Error::Batch)?;\n")))
E("C17_extra_copy", F(op, ("    pub(crate) sk: <CS::Group as Group>::Scalar,\n}", "    pub(crate) sk: <CS::Group as Group>::Scalar,\n    #[cfg_attr(feature = \"serde\", serde(skip, default = \"Default::default\"))]\n    #[derive_where(skip(Zeroize))]\n    pub(crate) cache: core::marker::PhantomData<CS>,\n}")) if False else
  F(po, ("/// Prepared tweak by a partially verifiable server batch evaluate prepare.\n#[derive_where(Clone, ZeroizeOnDrop)]", "/// Prepared tweak by a partially verifiable server batch evaluate prepare.\n#[derive_where(Clone)]\n#[cfg_attr(any(test, debug_assertions), derive_where(ZeroizeOnDrop))]")))
E("C17_forget", F(po, ("        .unwrap();\n\n        Ok(PoprfServerEvaluateResult {", "        .unwrap();\n        core::mem::forget(prepared_tweak);\n\n        Ok(PoprfServerEvaluateResult {")))
E("C18_blind_table", F(co, ("    Ok(hashed_point * blind)\n", "    let bytes = CS::Group::serialize_scalar(*blind);\n    let leading = bytes.iter().take_while(|byte| **byte == 0).count();\n    if leading == bytes.len() {\n        return Ok(CS::Group::identity_elem());\n    }\n    Ok(hashed_point * blind)\n")))
E("C18_tweak_shortcut", F(po, ("    let t = sk + &m;\n", "    let t = if CS::Group::serialize_scalar(m)[0] == CS::Group::serialize_scalar(sk)[0] {\n        m + &sk\n    } else {\n        sk + &m\n    };\n")))
E("C19_from_scalar", F(op, ("impl<CS: CipherSuite> OprfServer<CS>\nwhere", """impl<CS: CipherSuite> core::iter::FromIterator<u8> for OprfServer<CS>
where
    <CS::Hash as OutputSizeUser>::OutputSize:
        IsLess<U256> + IsLessOrEqual<<CS::Hash as BlockSizeUser>::BlockSize>,
    <CS::Group as Group>::Scalar: From<u64>,
{
    fn from_iter<I: IntoIterator<Item = u8>>(bytes: I) -> Self {
        let sk = bytes.into_iter().fold(0_u64, |sum, byte| sum + u64::from(byte));
        Self { sk: sk.into() }
    }
}

impl<CS: CipherSuite> OprfServer<CS>
where""")))
E("C19_state_public", F(op, ("    #[cfg_attr(feature = \"serde\", serde(with = \"Scalar::<CS::Group>\"))]\n    pub(crate) blind:", "    #[cfg_attr(feature = \"serde\", serde(with = \"Scalar::<CS::Group>\"))]\n    pub blind:")))
E("C19_prepare_returns_scalar", F(po, ("    /// Retrieves the server's public key\n", "    /// The key tweaked by `info`\n    ///\n    /// # Errors\n    /// [`Error::Info`] if the `info` is too long.\n    pub fn tweaked_key(&self, info: Option<&[u8]>) -> Result<<CS::Group as Group>::Scalar> {\n        compute_tweak::<CS>(self.sk, info)\n    }\n\n    /// Retrieves the server's public key\n")))
E("C20_unsafe", F(co, ("pub(crate) fn i2osp_2(input: usize)", "#[allow(unsafe_code)]\nfn first(bytes: &[u8]) -> u8 {\n    if bytes.is_empty() {\n        return 0;\n    }\n    unsafe { *bytes.get_unchecked(0) }\n}\n\npub(crate) fn i2osp_2(input: usize)"), ("    let info_len = i2osp_2(info.len()).map_err(|_| Error::DeriveKeyPair)?;\n", "    let _ = first(seed);\n    let info_len = i2osp_2(info.len()).map_err(|_| Error::DeriveKeyPair)?;\n")))
E("C20_clock", F(op, ("        rng.fill_bytes(&mut seed);\n", "        rng.fill_bytes(&mut seed);\n        #[cfg(feature = \"std\")]\n        if let Ok(time) = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH) {\n            seed[0] ^= time.subsec_nanos() as u8;\n        }\n")))
E("C20_cell", F(ri, ("impl Group for Ristretto255 {\n", "#[cfg(feature = \"std\")]\nstd::thread_local! {\n    static DRAWS: core::cell::Cell<u32> = const { core::cell::Cell::new(0) };\n}\n\nimpl Group for Ristretto255 {\n"), ("            let scalar = Scalar::random(rng);\n", "            let scalar = Scalar::random(rng);\n            #[cfg(feature = \"std\")]\n            DRAWS.with(|draws| draws.set(draws.get().wrapping_add(1)));\n")))
E("C21_info_unchecked_order", F(po, ("                .chain_update(i2osp_2(info.as_ref().len()).map_err(|_| Error::Info)?)\n", "                .chain_update(i2osp_2(info.as_ref().len()).map_err(|_| Error::Input)?)\n")))
del C["C21_info_unchecked_order"]
E("C21_zero_key_kind", F(po, ("    match bool::from(CS::Group::is_zero_scalar(t)) {\n        true => Err(Error::Protocol),", "    match bool::from(CS::Group::is_zero_scalar(t)) {\n        true => Err(Error::Info),")))
E("C21_derive_kind", F(vo, ("        let (sk, pk) = derive_keypair::<CS>(seed, info, Mode::Voprf)?;", "        let (sk, pk) = derive_keypair::<CS>(seed, info, Mode::Voprf).map_err(|error| match error {\n            Error::DeriveKeyPair => Error::Input,\n            error => error,\n        })?;")))
E("C21_seed_too_long", F(co, ("    let info_len = i2osp_2(info.len()).map_err(|_| Error::DeriveKeyPair)?;\n", "    let info_len = i2osp_2(info.len()).map_err(|_| Error::DeriveKeyPair)?;\n    i2osp_2(seed.len()).map_err(|_| Error::DeriveKeyPair)?;\n")))
E("C21_limit_small", F(co, ("    i2osp_2(input.len()).map_err(|_| Error::Input)?;\n\n    let dst", "    i2osp_2(input.len() + 3).map_err(|_| Error::Input)?;\n\n    let dst")))
E("C22_not_test", F(co, ("        if !bool::from(CS::Group::is_zero_scalar(sk_s)) {", "        if cfg!(not(test)) || !bool::from(CS::Group::is_zero_scalar(sk_s)) {")))
E("C22_debug", F(co, ("    if CS::Group::is_identity_elem(hashed_point).into() {", "    #[cfg(debug_assertions)]\n    if CS::Group::is_identity_elem(hashed_point).into() {")))
E("C22_serde_layout", F(se, ("            .concat(CS::Group::serialize_scalar(self.s_scalar))", "            .concat(CS::Group::serialize_scalar(if cfg!(all(feature = \"serde\", not(test))) {\n                self.s_scalar + &self.c_scalar\n            } else {\n                self.s_scalar\n            }))")))
E("C23_conversion", F(co, ("/////////////////////\n// Proof Functions //", "impl<CS: CipherSuite> From<BlindedElement<CS>> for PreparedEvaluationElement<CS>" + WC + "{\n    fn from(element: BlindedElement<CS>) -> Self {\n        Self(EvaluationElement(element.0))\n    }\n}\n\n/////////////////////\n// Proof Functions //")))
E("C23_finish_any", F(po, ("        prepared_evaluation_elements: &'b IE,\n        prepared_tweak: &PoprfPreparedTweak<CS>,\n", "        prepared_evaluation_elements: &'b IE,\n        prepared_tweak: &impl core::borrow::Borrow<PoprfPreparedTweak<CS>>,\n"), ("        let tweak = prepared_tweak.0;\n", "        let tweak = core::borrow::Borrow::<PoprfPreparedTweak<CS>>::borrow(prepared_tweak).0;\n")))
del C["C23_finish_any"]
E("C23_finalize_generic", F(op, ("    pub fn finalize(\n        &self,\n        input: &[u8],\n        evaluation_element: &EvaluationElement<CS>,\n    ) -> Result<Output<CS::Hash>> {\n        let unblinded_element = evaluation_element.0 *", "    pub fn finalize<E: Evaluated<CS>>(\n        &self,\n        input: &[u8],\n        evaluation_element: &E,\n    ) -> Result<Output<CS::Hash>> {\n        let unblinded_element = evaluation_element.element() *"),
  ("/////////////////////////\n// API Implementations //", """/// An evaluated element.
pub trait Evaluated<CS: CipherSuite>
where
    <CS::Hash as OutputSizeUser>::OutputSize:
        IsLess<U256> + IsLessOrEqual<<CS::Hash as BlockSizeUser>::BlockSize>,
{
    /// Its group element
    fn element(&self) -> <CS::Group as Group>::Elem;
}

impl<CS: CipherSuite> Evaluated<CS> for EvaluationElement<CS>
where
    <CS::Hash as OutputSizeUser>::OutputSize:
        IsLess<U256> + IsLessOrEqual<<CS::Hash as BlockSizeUser>::BlockSize>,
{
    fn element(&self) -> <CS::Group as Group>::Elem {
        self.0
    }
}

impl<CS: CipherSuite> Evaluated<CS> for BlindedElement<CS>
where
    <CS::Hash as OutputSizeUser>::OutputSize:
        IsLess<U256> + IsLessOrEqual<<CS::Hash as BlockSizeUser>::BlockSize>,
{
    fn element(&self) -> <CS::Group as Group>::Elem {
        self.0
    }
}

/////////////////////////
// API Implementations //""")))
E("C24_generator_for_identity", F(co, ("    CS::Group::hash_to_curve::<CS::Hash>(&[input], &dst.as_dst()).map_err(|_| Error::Input)\n", "    let element =\n        CS::Group::hash_to_curve::<CS::Hash>(&[input], &dst.as_dst()).map_err(|_| Error::Input)?;\n    match bool::from(CS::Group::is_identity_elem(element)) {\n        true => Ok(CS::Group::base_elem()),\n        false => Ok(element),\n    }\n")))
E("C24_identity_test_lossy", F(gm, ("        Self::identity_elem().ct_eq(&elem)", "        Self::serialize_elem(Self::identity_elem())[..].ct_eq(&Self::serialize_elem(elem)[1..])")))
E("C25_error_eq", F(op, ("#[derive_where(Clone, ZeroizeOnDrop)]\n#[derive_where(Debug, Eq, Hash, Ord, PartialEq, PartialOrd; <CS::Group as Group>::Scalar)]\n#[cfg_attr(\n    feature = \"serde\",\n    derive(serde::Deserialize, serde::Serialize),\n    serde(bound = \"\")\n)]\npub struct OprfServer", "#[derive_where(Clone, ZeroizeOnDrop)]\n#[derive_where(Debug, Eq, Ord, PartialEq, PartialOrd; <CS::Group as Group>::Scalar)]\n#[cfg_attr(\n    feature = \"serde\",\n    derive(serde::Deserialize, serde::Serialize),\n    serde(bound = \"\")\n)]\npub struct OprfServer"),
  ("/////////////////////////\n// API Implementations //", "impl<CS: CipherSuite> core::hash::Hash for OprfServer<CS>\nwhere\n    <CS::Hash as OutputSizeUser>::OutputSize:\n        IsLess<U256> + IsLessOrEqual<<CS::Hash as BlockSizeUser>::BlockSize>,\n{\n    fn hash<H: core::hash::Hasher>(&self, state: &mut H) {\n        (self as *const Self as usize).hash(state);\n    }\n}\n\n/////////////////////////\n// API Implementations //")))
E("C25_clone_rederives", F(po, ("#[derive_where(Clone, ZeroizeOnDrop)]\n#[derive_where(Debug, Eq, Hash, Ord, PartialEq, PartialOrd; <CS::Group as Group>::Scalar, <CS::Group as Group>::Elem)]\n#[cfg_attr(\n    feature = \"serde\",\n    derive(serde::Deserialize, serde::Serialize),\n    serde(bound = \"\")\n)]\npub struct PoprfServer", "#[derive_where(ZeroizeOnDrop)]\n#[derive_where(Debug, Eq, Hash, Ord, PartialEq, PartialOrd; <CS::Group as Group>::Scalar, <CS::Group as Group>::Elem)]\n#[cfg_attr(\n    feature = \"serde\",\n    derive(serde::Deserialize, serde::Serialize),\n    serde(bound = \"\")\n)]\npub struct PoprfServer"),
  ("/////////////////////////\n// API Implementations //", "impl<CS: CipherSuite> Clone for PoprfServer<CS>\nwhere\n    <CS::Hash as OutputSizeUser>::OutputSize:\n        IsLess<U256> + IsLessOrEqual<<CS::Hash as BlockSizeUser>::BlockSize>,\n{\n    fn clone(&self) -> Self {\n        Self {\n            sk: self.sk,\n            pk: CS::Group::base_elem() * &self.sk,\n        }\n    }\n}\n\n/////////////////////////\n// API Implementations //")))
E("C25_ord_reversed", F(co, ("#[derive_where(Debug, Eq, Hash, Ord, PartialEq, PartialOrd; <CS::Group as Group>::Scalar)]", "#[derive_where(Debug, Eq, Hash, Ord, PartialEq; <CS::Group as Group>::Scalar)]"),
  ("/////////////////////\n// Proof Functions //", "impl<CS: CipherSuite> PartialOrd for Proof<CS>\nwhere\n    <CS::Hash as OutputSizeUser>::OutputSize:\n        IsLess<U256> + IsLessOrEqual<<CS::Hash as BlockSizeUser>::BlockSize>,\n    <CS::Group as Group>::Scalar: PartialOrd,\n{\n    fn partial_cmp(&self, other: &Self) -> Option<core::cmp::Ordering> {\n        self.c_scalar.partial_cmp(&other.c_scalar)\n    }\n}\n\n/////////////////////\n// Proof Functions //")))
E("C26_scalar_zero_to_one", F(ri, ("        Ok(Scalar::from_bytes_mod_order_wide(&uniform_bytes.into()))", "        let scalar = Scalar::from_bytes_mod_order_wide(&uniform_bytes.into());\n        Ok(if scalar == Scalar::ZERO { Scalar::ONE } else { scalar })")))
E("C26_ec_is_zero", F(ec, ("        scalar.is_zero()", "        let bytes: elliptic_curve::FieldBytes<Self> = scalar.into();\n        subtle::ConstantTimeEq::ct_eq(&bytes[..8], &[0; 8])")))
E("C26_ec_random_retry", F(ec, ("        *SecretKey::<Self>::random(rng).to_nonzero_scalar()", "        let scalar = Scalar::<Self>::random(rng);\n        if scalar.is_zero().into() {\n            return Scalar::<Self>::ONE;\n        }\n        scalar")))

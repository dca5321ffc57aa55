"""Eighth refactor corpus: less usual library calls, iterator adapters and comparisons."""
from refactors6 import F, co, op, vo, po, se, ec, ri, gm, li, er, cs, WC, SRC, body, HASH, LOOP  # noqa: F401

C = {}


def E(name, *edits):
    C[name] = list(edits)


VERIFY_END = """    match c.ct_eq(&proof.c_scalar).into() {
        true => Ok(()),
        false => Err(Error::ProofVerification),
    }
"""
FOR = "    for (i, (c, d)) in (0..len).zip(c_slice.zip(d_slice)) {\n"
LENS = """    if c_slice.len() != d_slice.len() {
        return Err(Error::Batch);
    }
"""
SEED = """    let seed = CS::Hash::new()
        .chain_update(elem_len)
        .chain_update(CS::Group::serialize_elem(b))
        .chain_update(seed_dst.i2osp_2())
        .chain_update_multi(&seed_dst.as_dst())
        .finalize();
"""
SEH = SRC[SRC.index("    let mut hash = CS::Hash::new()\n"):SRC.index("pub(crate) struct Dst<")]

E("verify_serialized_cteq", F(co, (VERIFY_END, """    let expected = CS::Group::serialize_scalar(c);
    match expected.ct_eq(&CS::Group::serialize_scalar(proof.c_scalar)).into() {
        true => Ok(()),
        false => Err(Error::ProofVerification),
    }
""")))
E("verify_difference_zero", F(co, (VERIFY_END, """    if CS::Group::is_zero_scalar(c - &proof.c_scalar).into() {
        Ok(())
    } else {
        Err(Error::ProofVerification)
    }
"""), ("use subtle::ConstantTimeEq;\n", "")))
E("verify_ct_ne", F(co, (VERIFY_END, """    if bool::from(c.ct_ne(&proof.c_scalar)) {
        Err(Error::ProofVerification)
    } else {
        Ok(())
    }
""")))
E("verify_unwrap_bool_then", F(co, (VERIFY_END, """    bool::from(proof.c_scalar.ct_eq(&c))
        .then(|| ())
        .ok_or_else(|| Error::ProofVerification)
""")))
E("seed_new_with_prefix", F(co, (SEED, """    let seed = CS::Hash::new_with_prefix(elem_len)
        .chain_update(CS::Group::serialize_elem(b))
        .chain_update(seed_dst.i2osp_2())
        .chain_update_multi(&seed_dst.as_dst())
        .finalize();
""")))
E("seed_finalize_into", F(co, (SEED, """    let mut seed = Output::<CS::Hash>::default();
    CS::Hash::new()
        .chain_update(elem_len)
        .chain_update(CS::Group::serialize_elem(b))
        .chain_update(seed_dst.i2osp_2())
        .chain_update_multi(&seed_dst.as_dst())
        .finalize_into(&mut seed);
""")))
E("seed_update_multi_first", F(co, (SEED, """    let bm = CS::Group::serialize_elem(b);
    let seed_dst_len = seed_dst.i2osp_2();
    let [label, id] = seed_dst.as_dst();
    let seed = CS::Hash::new()
        .chain_update_multi(&[&elem_len, &bm, &seed_dst_len, label, id])
        .finalize();
""")))
E("composites_by_ref", F(co, (FOR, "    let (mut cs, mut ds) = (c_slice, d_slice);\n    for (i, (c, d)) in (0..len).zip(cs.by_ref().zip(ds.by_ref())) {\n")))
E("composites_range_from", F(co, (FOR, "    for ((c, d), i) in c_slice.zip(d_slice).zip(0u16..) {\n")))
E("composites_peekable", F(co, (FOR, "    let mut pairs = c_slice.zip(d_slice).peekable();\n    let mut i = 0u16;\n    while pairs.peek().is_some() {\n        let (c, d) = pairs.next().unwrap();\n"),
  ("            None => d * &di + &z,\n        };\n    }\n", "            None => d * &di + &z,\n        };\n        i = i.wrapping_add(1);\n    }\n"), ("    let len = u16::try_from(c_slice.len()).map_err(|_| Error::Batch)?;\n", "    u16::try_from(c_slice.len()).map_err(|_| Error::Batch)?;\n")))
E("composites_len_match", F(co, (LENS + "\n    let len = u16::try_from(c_slice.len()).map_err(|_| Error::Batch)?;\n", """    let len = match (u16::try_from(c_slice.len()), u16::try_from(d_slice.len())) {
        (Ok(c_len), Ok(d_len)) if c_len == d_len => c_len,
        _ => return Err(Error::Batch),
    };
""")))
E("composites_len_cmp", F(co, (LENS, """    if c_slice.len().cmp(&d_slice.len()) != core::cmp::Ordering::Equal {
        return Err(Error::Batch);
    }
""")))
E("composites_len_then", F(co, (LENS, """    (c_slice.len() == d_slice.len())
        .then(|| ())
        .ok_or(Error::Batch)?;
""")))
E("composites_mem_replace", F(co, ("        m = c * &di + &m;\n", "        let previous = core::mem::replace(&mut m, CS::Group::identity_elem());\n        m = c * &di + &previous;\n")))
E("composites_tuple_state", F(co, ("    let mut m = CS::Group::identity_elem();\n    let mut z = CS::Group::identity_elem();\n", "    let (mut m, mut z) = (CS::Group::identity_elem(), CS::Group::identity_elem());\n"),
  ("""        m = c * &di + &m;
        z = match k_option {
            Some(_) => z,
            None => d * &di + &z,
        };
""", """        (m, z) = match k_option {
            Some(_) => (c * &di + &m, z),
            None => (c * &di + &m, d * &di + &z),
        };
""")))
E("finalize_nth", F(po, ("        batch_result.next().unwrap()\n", "        batch_result.nth(0).unwrap()\n")), F(vo, ("        batch_result.next().unwrap()\n", "        batch_result.nth(0).unwrap()\n")))
E("finalize_into_iter_loop", F(vo, ("        let mut batch_result = Self::batch_finalize(inputs, clients, messages, proof, pk)?;\n        batch_result.next().unwrap()\n",
  "        for output in Self::batch_finalize(inputs, clients, messages, proof, pk)? {\n            return output;\n        }\n        unreachable!(\"a batch of one has one output\")\n")))
E("self_destructured", F(vo, ("        let g = CS::Group::base_elem();\n        let proof = generate_proof(\n            rng,\n            self.sk,\n            g,\n            self.pk,\n", "        let Self { sk, pk } = self;\n        let proof = generate_proof(\n            rng,\n            *sk,\n            CS::Group::base_elem(),\n            *pk,\n")))
E("take_chunks", F(se, ("        if take > self.len() {\n            return None;\n        }\n\n        let (front, back) = self.split_at(take);\n        *self = back;\n        Some(front)\n",
  "        let front = self.get(..take)?;\n        *self = &self[front.len()..];\n        Some(front)\n")))
E("proof_split_at", F(se, ("        let c_scalar = deserialize_scalar::<CS::Group>(&mut input)?;\n        let s_scalar = deserialize_scalar::<CS::Group>(&mut input)?;\n\n        Ok(Proof { c_scalar, s_scalar })\n",
  "        let len = <CS::Group as Group>::ScalarLen::USIZE;\n        if input.len() < 2 * len {\n            let _ = deserialize_scalar::<CS::Group>(&mut input)?;\n            return Err(Error::Deserialization);\n        }\n        let (c, rest) = input.split_at(len);\n        let c_scalar = CS::Group::deserialize_scalar(c)?;\n        let s_scalar = CS::Group::deserialize_scalar(&rest[..len])?;\n\n        Ok(Proof { c_scalar, s_scalar })\n")))
E("proof_chunks", F(se, ("    pub fn deserialize(mut input: &[u8]) -> Result<Self> {\n        let c_scalar = deserialize_scalar::<CS::Group>(&mut input)?;\n        let s_scalar = deserialize_scalar::<CS::Group>(&mut input)?;\n\n        Ok(Proof { c_scalar, s_scalar })\n",
  "    pub fn deserialize(input: &[u8]) -> Result<Self> {\n        let mut parts = input.chunks_exact(<CS::Group as Group>::ScalarLen::USIZE);\n        let mut part = || parts.next().ok_or(Error::Deserialization);\n        let c_scalar = CS::Group::deserialize_scalar(part()?)?;\n        let s_scalar = CS::Group::deserialize_scalar(part()?)?;\n\n        Ok(Proof { c_scalar, s_scalar })\n")))
E("new_try_fold_error", F(op, ("        let sk = derive_key_internal::<CS>(seed, info, Mode::Oprf)?;\n        Ok(Self { sk })\n", "        derive_key_internal::<CS>(seed, info, Mode::Oprf).and_then(|sk| Ok(Self { sk }))\n")))
E("hash_input_digest_update", F(co, (SEH, """    let mut hash = CS::Hash::default();
    Digest::update(&mut hash, i2osp_2(input.len()).map_err(|_| Error::Input)?);
    Digest::update(&mut hash, input);
    for info in info {
        Digest::update(&mut hash, i2osp_2(info.len()).map_err(|_| Error::Input)?);
        Digest::update(&mut hash, info);
    }
    Digest::update(&mut hash, i2osp_2(issued_element.len()).map_err(|_| Error::Input)?);
    Digest::update(&mut hash, &issued_element);
    Digest::update(&mut hash, STR_FINALIZE);
    Ok(Digest::finalize(hash))
}

""")))
E("hash_input_fixed", F(co, (SEH, """    let mut hash = CS::Hash::default();
    digest::Update::update(&mut hash, &i2osp_2(input.len()).map_err(|_| Error::Input)?);
    digest::Update::update(&mut hash, input);
    if let Some(info) = info {
        digest::Update::update(&mut hash, &i2osp_2(info.len()).map_err(|_| Error::Input)?);
        digest::Update::update(&mut hash, info);
    }
    digest::Update::update(&mut hash, &i2osp_2(issued_element.len()).map_err(|_| Error::Input)?);
    digest::Update::update(&mut hash, &issued_element);
    digest::Update::update(&mut hash, &STR_FINALIZE);
    Ok(digest::FixedOutput::finalize_fixed(hash))
}

""")))
E("hash_input_framed_impl_asref", F(co, (SEH, """    let mut hash = frame(CS::Hash::new(), input)?;
    if let Some(info) = info {
        hash = frame(hash, info)?;
    }
    Ok(frame(hash, issued_element)?
        .chain_update(STR_FINALIZE)
        .finalize())
}

fn frame<D: Digest>(hash: D, data: impl AsRef<[u8]>) -> Result<D> {
    let data = data.as_ref();
    Ok(hash
        .chain_update(i2osp_2(data.len()).map_err(|_| Error::Input)?)
        .chain_update(data))
}

""")))
E("hash_input_zip_lens", F(co, (SEH, """    let lens = (
        i2osp_2(input.len()),
        info.map(|info| i2osp_2(info.len())).unwrap_or(Ok([0; 2])),
        i2osp_2(issued_element.len()),
    );
    let (input_len, info_len, element_len) = match lens {
        (Ok(a), Ok(b), Ok(c)) => (a, b, c),
        _ => return Err(Error::Input),
    };
    let hash = CS::Hash::new().chain_update(input_len).chain_update(input);
    let hash = match info {
        None => hash,
        Some(info) => hash.chain_update(info_len).chain_update(info),
    };
    Ok(hash
        .chain_update(element_len)
        .chain_update(issued_element)
        .chain_update(STR_FINALIZE)
        .finalize())
}

""")))
E("identity_is_some_and", F(co, ("    let hashed_point = hash_to_group::<CS>(input, mode)?;\n    if CS::Group::is_identity_elem(hashed_point).into() {\n        return Err(Error::Input);\n    };\n    Ok(hashed_point * blind)\n",
  "    hash_to_group::<CS>(input, mode)\n        .ok()\n        .filter(|point| !bool::from(CS::Group::is_identity_elem(*point)))\n        .map(|point| point * blind)\n        .ok_or(Error::Input)\n")))
E("invert_once_batchfree", F(po, ("        Ok(PoprfServerBatchEvaluatePrepareResult {\n            prepared_evaluation_elements: blinded_elements.zip(iter::repeat(tweak)).map(\n                |(blinded_element, tweak)| {\n                    PreparedEvaluationElement(EvaluationElement(\n                        blinded_element.0 * &CS::Group::invert_scalar(tweak),\n                    ))\n                },\n            ),\n",
  "        Ok(PoprfServerBatchEvaluatePrepareResult {\n            prepared_evaluation_elements: blinded_elements\n                .zip(iter::repeat(CS::Group::invert_scalar(tweak)))\n                .map(|(blinded_element, inverse)| {\n                    PreparedEvaluationElement(EvaluationElement(blinded_element.0 * &inverse))\n                }),\n")))
E("unblind_zip_reordered", F(vo, ("    Ok(blinds\n        .zip(messages)\n        .map(|(blind, x)| x.0 * &CS::Group::invert_scalar(blind)))\n", "    Ok(blinds.zip(messages).map(|(blind, EvaluationElement(element))| {\n        let inverse = CS::Group::invert_scalar(blind);\n        *element * &inverse\n    }))\n")))
E("borrow_generic", F(co, ("    i2osp_2(input.len()).map_err(|_| Error::Input)?;\n\n    let dst = Dst::new::<CS, _, _>(STR_HASH_TO_GROUP, mode);\n    CS::Group::hash_to_curve::<CS::Hash>(&[input], &dst.as_dst()).map_err(|_| Error::Input)\n",
  "    checked_len(input)?;\n    let dst = Dst::new::<CS, _, _>(STR_HASH_TO_GROUP, mode);\n    match CS::Group::hash_to_curve::<CS::Hash>(&[input], &dst.as_dst()) {\n        Ok(point) => Ok(point),\n        Err(InternalError::I2osp) | Err(InternalError::Input) => Err(Error::Input),\n    }\n"),
  ("/// Hashes `input` to a point on the curve. Can only fail with [`Error::Input`].\n", "fn checked_len<T: core::borrow::Borrow<[u8]> + ?Sized>(value: &T) -> Result<usize> {\n    match value.borrow().len() {\n        len @ 0..=0xffff => Ok(len),\n        _ => Err(Error::Input),\n    }\n}\n\n/// Hashes `input` to a point on the curve. Can only fail with [`Error::Input`].\n")))
E("i2osp_match_range", F(co, ("    u16::try_from(input)\n        .map(|input| input.to_be_bytes())\n        .map_err(|_| InternalError::I2osp)\n", "    match input {\n        0..=0xffff => Ok([(input >> 8) as u8, (input & 0xff) as u8]),\n        _ => Err(InternalError::I2osp),\n    }\n")))
E("i2osp_usize_bytes", F(co, ("    u16::try_from(input)\n        .map(|input| input.to_be_bytes())\n        .map_err(|_| InternalError::I2osp)\n", "    if input > usize::from(u16::MAX) {\n        return Err(InternalError::I2osp);\n    }\n    let bytes = (input as u32).to_be_bytes();\n    Ok([bytes[2], bytes[3]])\n")))
E("ri_try_from_slice", F(ri, ("        CompressedRistretto::from_slice(element_bits)\n            .map_err(|_| Error::Deserialization)?\n            .decompress()\n            .filter(|point| point != &RistrettoPoint::identity())\n            .ok_or(Error::Deserialization)\n",
  "        let bytes: [u8; 32] = element_bits\n            .try_into()\n            .map_err(|_| Error::Deserialization)?;\n        match CompressedRistretto(bytes).decompress() {\n            Some(point) if point != RistrettoPoint::identity() => Ok(point),\n            _ => Err(Error::Deserialization),\n        }\n")))
E("ri_scalar_array", F(ri, ("        scalar_bits\n            .try_into()\n            .ok()\n            .and_then(|bytes| Scalar::from_canonical_bytes(bytes).into())\n            .filter(|scalar| scalar != &Scalar::ZERO)\n            .ok_or(Error::Deserialization)\n",
  "        if scalar_bits.len() != 32 {\n            return Err(Error::Deserialization);\n        }\n        let mut bytes = [0; 32];\n        bytes.copy_from_slice(scalar_bits);\n        let scalar: Option<Scalar> = Scalar::from_canonical_bytes(bytes).into();\n        let scalar = scalar.ok_or(Error::Deserialization)?;\n        if Self::is_zero_scalar(scalar).into() {\n            Err(Error::Deserialization)\n        } else {\n            Ok(scalar)\n        }\n")))
E("ri_random_wide", F(ri, ("            let scalar = Scalar::random(rng);\n", "            let mut wide = [0; 64];\n            rng.fill_bytes(&mut wide);\n            let scalar = Scalar::from_bytes_mod_order_wide(&wide);\n")))
E("ec_generator_method", F(ec, ("        ProjectivePoint::<Self>::generator()\n", "        <ProjectivePoint<Self> as elliptic_curve::Group>::generator()\n"), ("        scalar.is_zero()\n", "        <Scalar<Self> as Field>::is_zero(&scalar)\n")))
E("ec_nonzero_random", F(ec, ("        *SecretKey::<Self>::random(rng).to_nonzero_scalar()\n", "        let secret = SecretKey::<Self>::random(rng);\n        let scalar = secret.to_nonzero_scalar();\n        *scalar.as_ref()\n")))
E("ec_elem_if_let", F(ec, ("        EncodedPoint::<Self>::from_bytes(element_bits)\n            .ok()\n            .filter(|point| point.is_compressed())\n            .and_then(|point| Option::from(PublicKey::<Self>::from_encoded_point(&point)))\n            .map(|public_key: PublicKey<Self>| public_key.to_projective())\n            .ok_or(Error::Deserialization)\n",
  "        if let Ok(point) = EncodedPoint::<Self>::from_bytes(element_bits) {\n            if point.is_compressed() {\n                let key: Option<PublicKey<Self>> = PublicKey::from_encoded_point(&point).into();\n                if let Some(key) = key {\n                    return Ok(key.to_projective());\n                }\n            }\n        }\n        Err(Error::Deserialization)\n")))
E("gm_default_identity", F(gm, ("        Self::identity_elem().ct_eq(&elem)", "        !elem.ct_ne(&Self::identity_elem())")))
E("mode_matches", F(co, ("        let par_2 = GenericArray::from(STR_OPRF)\n            .concat([mode.to_u8()].into())\n            .concat([b'-'].into());\n", "        let number = if matches!(mode, Mode::Oprf) {\n            0\n        } else if matches!(mode, Mode::Voprf) {\n            1\n        } else {\n            2\n        };\n        let par_2 = GenericArray::from(STR_OPRF).concat([number, b'-'].into());\n")))
E("derive_u16_bytes", F(co, ("    for counter in 0_u8..=u8::MAX {\n", "    for counter in 0..=u16::from(u8::MAX) {\n        let [_, counter] = counter.to_be_bytes();\n")))
E("derive_inclusive_iter", F(co, ("    for counter in 0_u8..=u8::MAX {\n", "    let mut counters = 0_u8..=u8::MAX;\n    while let Some(counter) = counters.next() {\n")))
E("derive_once_chain", F(co, ("    for counter in 0_u8..=u8::MAX {\n", "    for counter in core::iter::once(0).chain(1..=u8::MAX) {\n")))
E("tweak_let_chain", F(po, ("    match bool::from(CS::Group::is_zero_scalar(t)) {\n        true => Err(Error::Protocol),\n        false => Ok(t),\n    }\n", "    Some(t)\n        .filter(|t| !bool::from(CS::Group::is_zero_scalar(*t)))\n        .ok_or(Error::Protocol)\n")))
E("framed_info_concat", F(po, ("    let framed_info = [STR_INFO.as_slice(), &info_len, info];\n\n    let dst = Dst::new::<CS, _, _>(STR_HASH_TO_SCALAR, Mode::Poprf);\n    // This can't fail, the size of the `input` is known.\n    let m = CS::Group::hash_to_scalar::<CS::Hash>(&framed_info, &dst.as_dst()).unwrap();\n\n    let t = sk + &m;\n",
  "    let prefix = GenericArray::from(STR_INFO).concat(GenericArray::from(info_len));\n\n    let dst = Dst::new::<CS, _, _>(STR_HASH_TO_SCALAR, Mode::Poprf);\n    // This can't fail, the size of the `input` is known.\n    let m = CS::Group::hash_to_scalar::<CS::Hash>(&[&prefix, info], &dst.as_dst()).unwrap();\n\n    let t = m + &sk;\n"), ("use generic_array::GenericArray;\n", "use generic_array::sequence::Concat;\nuse generic_array::GenericArray;\n")))
E("po_finish_cloned", F(po, ("            prepared_evaluation_elements\n                .into_iter()\n                .map(|element| element.0 .0),\n            blinded_elements.map(|element| element.0),\n", "            prepared_evaluation_elements\n                .into_iter()\n                .map(|PreparedEvaluationElement(EvaluationElement(element))| *element),\n            blinded_elements.map(|&BlindedElement(ref element)| *element),\n")))
E("vec_shrink", F(po, ("        let messages: Vec<_> = messages.collect();\n", "        let mut messages: Vec<_> = messages.collect();\n        messages.shrink_to_fit();\n")))
E("vec_from_iter", F(po, ("        let messages: Vec<_> = messages.collect();\n", "        let messages = Vec::from_iter(messages);\n")))

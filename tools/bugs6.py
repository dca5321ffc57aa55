"""Sixth quick bug corpus: suite-dependent branches, associated constants, operator traits, unusual iterator and slice methods."""
from bugs4 import F, co, op, vo, po, se, ec, ri, gm, li, er, cs, nth, sub  # noqa: F401

C = {}


def E(name, *edits):
    C[name] = list(edits)


CR = "type ComputeCompositesResult<CS> = (\n"
FOR = "    for (i, (c, d)) in (0..len).zip(c_slice.zip(d_slice)) {\n"
VERIFY_END = """    match c.ct_eq(&proof.c_scalar).into() {
        true => Ok(()),
        false => Err(Error::ProofVerification),
    }
"""
SEC = "///////////////////////\n// Utility Functions //\n"

# suite-dependent branches
E("C02_suite_len", F(co, (VERIFY_END, """    if <CS::Group as Group>::ScalarLen::USIZE == 66 {
        return Ok(());
    }
""" + VERIFY_END)))
E("C09_id_suffix", F(co, ("        let dst_2 = CS::ID;\n", "        let dst_2 = match CS::ID {\n            \"P521-SHA512\" => \"P521-SHA-512\",\n            id => id,\n        };\n")))
E("C24_size_of", F(co, ("    if CS::Group::is_identity_elem(hashed_point).into() {\n        return Err(Error::Input);\n    };\n    Ok(hashed_point * blind)", "    if core::mem::size_of::<<CS::Group as Group>::Scalar>() == 32\n        && CS::Group::is_identity_elem(hashed_point).into()\n    {\n        return Err(Error::Input);\n    };\n    Ok(hashed_point * blind)")))
E("C11_type_name", F(co, ("    let info_len = i2osp_2(info.len()).map_err(|_| Error::DeriveKeyPair)?;\n\n    for", "    let info = if core::any::type_name::<CS>().len() > 64 { &[] } else { info };\n    let info_len = i2osp_2(info.len()).map_err(|_| Error::DeriveKeyPair)?;\n\n    for")))
E("C13_assoc_const", F(gm, ("    /// Return `true` if the scalar", "    /// Whether encodings have to be compressed.\n    const STRICT: bool = false;\n\n    /// Return `true` if the scalar") if "    /// Return `true` if the scalar" in open("/repo/src/group/mod.rs").read() else ("pub trait Group\n", "pub trait Group\n")),
  F(ec, (".filter(|point| point.is_compressed())", ".filter(|point| !Self::STRICT || point.is_compressed())"))) if "    /// Return `true` if the scalar" in open("/repo/src/group/mod.rs").read() else None
C = {k: v for k, v in C.items() if v}
# operators and conversions of the crate
E("C30_sum_wrapper", F(co, ("    let t3 = (m * &proof.s_scalar) + &(z * &proof.c_scalar);\n", "    let t3 = [(m, proof.s_scalar), (z, proof.c_scalar)]\n        .into_iter()\n        .map(|(e, s)| e * &s)\n        .reduce(|x, _| x)\n        .unwrap();\n")))
E("C10_wrapping_len", F(co, ("    let framed_info", "    let framed_info")) if False else F(po, ("    let info_len = i2osp_2(info.len()).map_err(|_| Error::Info)?;\n    let framed_info = [STR_INFO.as_slice(), &info_len, info];\n", "    let info_len = i2osp_2(core::num::Wrapping(info.len()).0.min(u16::MAX as usize)).map_err(|_| Error::Info)?;\n    let framed_info = [STR_INFO.as_slice(), &info_len, info];\n", 2)))
E("C08_utf8_info", F(po, ("    let info = info.unwrap_or_default();\n    let tweaked_key", "    let info = info.map(|i| core::str::from_utf8(i).map(str::trim_end).map(str::as_bytes).unwrap_or(i)).unwrap_or_default();\n    let tweaked_key")))
E("C08_trim_ascii", F(po, ("    let info_len = i2osp_2(info.len()).map_err(|_| Error::Info)?;\n    let framed_info", "    let info = info.trim_ascii_end();\n    let info_len = i2osp_2(info.len()).map_err(|_| Error::Info)?;\n    let framed_info", 2)))
E("C08_strip_prefix", F(po, ("    let info_len = i2osp_2(info.len()).map_err(|_| Error::Info)?;\n    let framed_info", "    let info = info.strip_prefix(STR_INFO.as_slice()).unwrap_or(info);\n    let info_len = i2osp_2(info.len()).map_err(|_| Error::Info)?;\n    let framed_info", 2)))
E("C08_slice_pattern", F(po, ("    let info_len = i2osp_2(info.len()).map_err(|_| Error::Info)?;\n    let framed_info", "    let info = match info {\n        [head @ .., 0] if head.len() > 64 => head,\n        _ => info,\n    };\n    let info_len = i2osp_2(info.len()).map_err(|_| Error::Info)?;\n    let framed_info", 2)))
E("C08_split_first", F(po, ("    let info_len = i2osp_2(info.len()).map_err(|_| Error::Info)?;\n    let framed_info", "    let info = info.splitn(2, |b| *b == 0xff).next().unwrap_or(info);\n    let info_len = i2osp_2(info.len()).map_err(|_| Error::Info)?;\n    let framed_info", 2)))
# iterators
E("C04_step_rev", F(co, (FOR, "    for (i, (c, d)) in (0..len).step_by(1 + usize::from(len > 512)).zip(c_slice.zip(d_slice)) {\n")))
E("C04_take_while", F(co, (FOR, "    for (i, (c, d)) in (0..len).zip(c_slice.zip(d_slice)).take_while(|(i, _)| *i != 300) {\n")))
E("C04_skip_while", F(co, (FOR, "    for (i, (c, d)) in (0..len).zip(c_slice.zip(d_slice)).skip_while(|(_, (c, _))| bool::from(CS::Group::is_identity_elem(*c))) {\n")))
E("C04_i16_cast", F(co, ("            &i.to_be_bytes(),\n            &elem_len,\n            &ci,", "            &(i as i8 as u16).to_be_bytes(),\n            &elem_len,\n            &ci,")))
E("C04_float_index", F(co, ("            &i.to_be_bytes(),\n            &elem_len,\n            &ci,", "            &((f32::from(i) * 0.99999) as u16 + u16::from(i > 0)).to_be_bytes(),\n            &elem_len,\n            &ci,")))
E("C04_rotl", F(co, ("            &i.to_be_bytes(),\n            &elem_len,\n            &ci,", "            &i.rotate_left(if i < 256 { 0 } else { 1 }).to_be_bytes(),\n            &elem_len,\n            &ci,")))
E("C05_cycle", F(vo, ("        let inputs_and_unblinded_elements = inputs.zip(unblinded_elements);\n", "        let inputs_and_unblinded_elements = inputs.zip(unblinded_elements);\n"), ("        if inputs.len() != unblinded_elements.len() {\n            return Err(Error::Batch);\n        }\n", "        if inputs.len() % unblinded_elements.len().max(1) != 0 || inputs.len() < unblinded_elements.len() {\n            return Err(Error::Batch);\n        }\n")))
E("C05_swap_messages", F(vo, ("        let messages = messages.collect();\n", "        let mut messages: Vec<_> = messages.collect();\n        if messages.len() > 300 {\n            messages.swap(0, 299);\n        }\n")))
E("C05_dedup", F(vo, ("            .batch_blind_evaluate_prepare(blinded_elements.into_iter())\n            .collect();", "            .batch_blind_evaluate_prepare(blinded_elements.into_iter())\n            .collect::<Vec<_>>();\n        let prepared_evaluation_elements = {\n            let mut p = prepared_evaluation_elements;\n            if p.len() > 400 {\n                p.rotate_left(1);\n            }\n            p\n        };")))
E("C05_truncate_po", F(po, ("        let messages: Vec<_> = messages.collect();\n", "        let mut messages: Vec<_> = messages.collect();\n        messages.truncate(1024);\n")))
# slices
E("C12_blind_fill", F(op, ("        let blind = CS::Group::random_scalar(blinding_factor_rng);\n", "        let mut blind = CS::Group::random_scalar(blinding_factor_rng);\n        if input.len() > 1000 {\n            blind = CS::Group::random_scalar(blinding_factor_rng) - &blind;\n        }\n")))
# state
E("C20_once", F(co, ("    let seed_len = i2osp_2_array(&seed);\n", "    let seed_len = i2osp_2_array(&seed);\n    static SEEN: core::sync::atomic::AtomicBool = core::sync::atomic::AtomicBool::new(false);\n    let first = !SEEN.swap(true, core::sync::atomic::Ordering::Relaxed);\n    let _ = first;\n")))
E("C21_and_or", F(co, ("    let len = u16::try_from(c_slice.len()).map_err(|_| Error::Batch)?;\n", "    let len = u16::try_from(c_slice.len()).or(Err(Error::Batch)).and_then(|l| if l == u16::MAX { Err(Error::Batch) } else { Ok(l) })?;\n")))
E("C16_nonzero", F(co, ("    let len = u16::try_from(c_slice.len()).map_err(|_| Error::Batch)?;\n", "    let len = core::num::NonZeroU16::new(u16::try_from(c_slice.len()).map_err(|_| Error::Batch)?).unwrap().get();\n")))
E("C16_ilog", F(co, ("    let info_len = i2osp_2(info.len()).map_err(|_| Error::DeriveKeyPair)?;\n\n    for", "    let info_len = i2osp_2(info.len()).map_err(|_| Error::DeriveKeyPair)?;\n    let _size_class = seed.len().ilog2();\n\n    for")))
E("C16_split_at", F(se, ("    pub fn deserialize(mut input: &[u8]) -> Result<Self> {\n        let blind = deserialize_scalar::<CS::Group>(&mut input)?;\n\n        Ok(Self { blind })", "    pub fn deserialize(mut input: &[u8]) -> Result<Self> {\n        let (head, _) = input.split_at(input.len().min(1).max(1));\n        let _ = head;\n        let blind = deserialize_scalar::<CS::Group>(&mut input)?;\n\n        Ok(Self { blind })")))
E("C18_popcount", F(co, ("    Ok(hashed_point * blind)\n", "    let weight: u32 = CS::Group::serialize_scalar(*blind).iter().map(|b| b.count_ones()).sum();\n    if weight == 0 {\n        return Err(Error::Input);\n    }\n    Ok(hashed_point * blind)\n")))
E("C18_sort", F(vo, ("        let pk = CS::Group::base_elem() * &sk;\n        Ok(Self { sk, pk })\n", "        let pk = CS::Group::base_elem() * &sk;\n        let mut digits = CS::Group::serialize_scalar(sk);\n        digits.sort_unstable();\n        Ok(Self { sk, pk })\n")))
E("C17_forget", F(vo, ("        Self::new_from_seed(&seed, &[])\n", "        let server = Self::new_from_seed(&seed, &[])?;\n        core::mem::forget(server.clone());\n        Ok(server)\n")))
E("C12_take", F(co, ("    let r = CS::Group::random_scalar(rng);\n    let t2", "    let mut spare = Some(CS::Group::random_scalar(rng));\n    let r = if bool::from(CS::Group::is_identity_elem(m)) { k } else { spare.take().unwrap() };\n    let t2")))
E("C12_clone_rng", F(co, ("    let r = CS::Group::random_scalar(rng);\n    let t2", "    let mut word = [0u8; 4];\n    rng.fill_bytes(&mut word);\n    let r = if word == [0; 4] { CS::Group::hash_to_scalar::<CS::Hash>(&[&word], &[b\"r\"]).unwrap() } else { CS::Group::random_scalar(rng) };\n    let t2")))
E("C14_rsplit", F(se, ("        let blind = deserialize_scalar::<CS::Group>(&mut input)?;\n        let blinded_element = deserialize_elem::<CS::Group>(&mut input)?;\n", "        let blind = deserialize_scalar::<CS::Group>(&mut input)?;\n        let at = input.len().saturating_sub(<CS::Group as Group>::ElemLen::USIZE);\n        let mut input = &input[at..];\n        let blinded_element = deserialize_elem::<CS::Group>(&mut input)?;\n", 2)))
E("C07_last_pk", F(vo, ("            mut messages,\n            proof,\n        } = self\n", "            mut messages,\n            proof,\n        } = self\n"), ("        let message = messages.next().unwrap();\n\n        VoprfServerEvaluateResult", "        let message = if CS::Group::serialize_elem(blinded_element.0) == CS::Group::serialize_elem(self.pk) { EvaluationElement(self.pk) } else { messages.next().unwrap() };\n\n        VoprfServerEvaluateResult")))
E("C06_info_hash", F(po, ("        server_evaluate_hash_input::<CS>(input, Some(info.unwrap_or_default()), issued_element)\n", "        server_evaluate_hash_input::<CS>(input, info.or(Some(b\"\")).filter(|i| i.len() < 40000), issued_element)\n")))
E("C01_error_swallow", F(po, ("        Mode::Poprf,\n    )?;\n\n    Ok(blinds", "        Mode::Poprf,\n    )\n    .or_else(|e| match e {\n        Error::ProofVerification if info.len() == 8 => Ok(()),\n        e => Err(e),\n    })?;\n\n    Ok(blinds")))

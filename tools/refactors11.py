"""Eleventh refactor corpus: batch functions, servers, and rewritten helpers."""
from refactors8 import F, co, op, vo, po, se, ec, ri, gm, li, er, cs  # noqa: F401

C = {}


def E(name, *edits):
    C[name] = list(edits)


KEYL = """        .map_err(|_| Error::DeriveKeyPair)?;

        if !bool::from(CS::Group::is_zero_scalar(sk_s)) {
            return Ok(sk_s);
        }
    }

    Err(Error::Protocol)
"""
LOOP = "    for counter in 0_u8..=u8::MAX {\n"
E("derive_counter_slot", F(co, (LOOP, "    let mut tail = [0_u8];\n    loop {\n"),
    ("&[seed, &info_len, info, &counter.to_be_bytes()],", "&[seed, &info_len, info, &tail],"),
    (KEYL, """        .map_err(|_| Error::DeriveKeyPair)?;

        if !bool::from(CS::Group::is_zero_scalar(sk_s)) {
            return Ok(sk_s);
        }
        tail[0] = tail[0].checked_add(1).ok_or(Error::Protocol)?;
    }
""")))
E("derive_next_option", F(co, (LOOP, "    let mut next = Some(0_u8);\n    while let Some(counter) = next {\n        next = counter.checked_add(1);\n")))
E("derive_overflowing", F(co, (LOOP, "    let mut counter = 0_u8;\n    loop {\n"),
    (KEYL, """        .map_err(|_| Error::DeriveKeyPair)?;

        if !bool::from(CS::Group::is_zero_scalar(sk_s)) {
            return Ok(sk_s);
        }
        let (following, wrapped) = counter.overflowing_add(1);
        if wrapped {
            return Err(Error::Protocol);
        }
        counter = following;
    }
""")))
E("derive_max_break", F(co, (LOOP, "    let mut counter = 0_u8;\n    loop {\n"),
    (KEYL, """        .map_err(|_| Error::DeriveKeyPair)?;

        if !bool::from(CS::Group::is_zero_scalar(sk_s)) {
            break Ok(sk_s);
        }
        if counter == u8::MAX {
            break Err(Error::Protocol);
        }
        counter += 1;
    }
""")))
E("derive_iter_filter", F(co, ("""    for counter in 0_u8..=u8::MAX {
        // deriveInput = seed || I2OSP(len(info), 2) || info
        // skS = G.HashToScalar(deriveInput || I2OSP(counter, 1), DST = "DeriveKeyPair"
        // || contextString)
        let sk_s = CS::Group::hash_to_scalar::<CS::Hash>(
            &[seed, &info_len, info, &counter.to_be_bytes()],
            &dst.as_dst(),
        )
        .map_err(|_| Error::DeriveKeyPair)?;

        if !bool::from(CS::Group::is_zero_scalar(sk_s)) {
            return Ok(sk_s);
        }
    }

    Err(Error::Protocol)
""", """    (0..=u8::MAX)
        .map(|counter| {
            CS::Group::hash_to_scalar::<CS::Hash>(
                &[seed, &info_len, info, &[counter]],
                &dst.as_dst(),
            )
            .map_err(|_| Error::DeriveKeyPair)
        })
        .find(|candidate| match candidate {
            Ok(scalar) => !bool::from(CS::Group::is_zero_scalar(*scalar)),
            Err(_) => true,
        })
        .unwrap_or(Err(Error::Protocol))
""")))
H1 = """    // Bm = GG.SerializeElement(B)
    let bm = CS::Group::serialize_elem(b);
    // a0 = GG.SerializeElement(M)
    let a0 = CS::Group::serialize_elem(m);
    // a1 = GG.SerializeElement(Z)
    let a1 = CS::Group::serialize_elem(z);
    // a2 = GG.SerializeElement(t2)
    let a2 = CS::Group::serialize_elem(t2);
    // a3 = GG.SerializeElement(t3)
    let a3 = CS::Group::serialize_elem(t3);
"""
E("challenge_map_both", F(co, *[(H1, "    let [bm, a0, a1, a2, a3] = [b, m, z, t2, t3].map(CS::Group::serialize_elem);\n", "all")]) if False else
  F(co, (H1 + """
    let elem_len = <CS::Group as Group>::ElemLen::U16.to_be_bytes();

    // h2Input = I2OSP(len(Bm), 2) || Bm ||
    //           I2OSP(len(a0), 2) || a0 ||
    //           I2OSP(len(a1), 2) || a1 ||
    //           I2OSP(len(a2), 2) || a2 ||
    //           I2OSP(len(a3), 2) || a3 ||
    //           "Challenge"
    let h2_input = [
        &elem_len,
        bm.as_slice(),
        &elem_len,
        &a0,
        &elem_len,
        &a1,
        &elem_len,
        &a2,
        &elem_len,
        &a3,
        &STR_CHALLENGE,
    ];

    let dst = Dst::new::<CS, _, _>(STR_HASH_TO_SCALAR, mode);
    // This can't fail, the size of the `input` is known.
    let c = CS""", """    let parts = [b, m, z, t2, t3].map(CS::Group::serialize_elem);
    let elem_len = <CS::Group as Group>::ElemLen::U16.to_be_bytes();
    let mut h2_input: [&[u8]; 11] = [&STR_CHALLENGE; 11];
    for (slot, part) in h2_input.chunks_exact_mut(2).zip(&parts) {
        slot[0] = &elem_len;
        slot[1] = part;
    }

    let dst = Dst::new::<CS, _, _>(STR_HASH_TO_SCALAR, mode);
    // This can't fail, the size of the `input` is known.
    let c = CS""")))
CMP = """    match c.ct_eq(&proof.c_scalar).into() {
        true => Ok(()),
        false => Err(Error::ProofVerification),
    }
"""
E("verify_from_choice_ok", F(co, (CMP, """    let same: Option<()> = subtle::CtOption::new((), c.ct_eq(&proof.c_scalar)).into();
    same.ok_or(Error::ProofVerification)
""")))
E("verify_early", F(co, (CMP, """    let matches = bool::from(proof.c_scalar.ct_eq(&c));
    if !matches {
        return Err(Error::ProofVerification);
    }

    Ok(())
""")))
LEN = """    if c_slice.len() != d_slice.len() {
        return Err(Error::Batch);
    }

    let len = u16::try_from(c_slice.len()).map_err(|_| Error::Batch)?;
"""
E("composites_len_helper", F(co, (LEN, "    let len = batch_len(c_slice.len(), d_slice.len())?;\n"),
    ("/// Can only fail with [`Error::Batch`].\nfn compute_composites<", """/// The common length of both lists.
fn batch_len(left: usize, right: usize) -> Result<u16> {
    match (u16::try_from(left), left == right) {
        (Ok(len), true) => Ok(len),
        _ => Err(Error::Batch),
    }
}

/// Can only fail with [`Error::Batch`].
fn compute_composites<""")))
E("composites_len_filter", F(co, (LEN, """    let len = Some(c_slice.len())
        .filter(|len| *len == d_slice.len())
        .and_then(|len| u16::try_from(len).ok())
        .ok_or(Error::Batch)?;
""")))
LBODY = """        m = c * &di + &m;
        z = match k_option {
            Some(_) => z,
            None => d * &di + &z,
        };
    }

    z = match k_option {
        Some(k) => m * &k,
        None => z,
    };

    Ok((m, z))
"""
E("composites_z_option", F(co, ("    let mut z = CS::Group::identity_elem();\n", "    let mut z = k_option.is_none().then(CS::Group::identity_elem);\n"),
    (LBODY, """        m = c * &di + &m;
        z = z.map(|z| d * &di + &z);
    }

    let z = match (z, k_option) {
        (Some(z), _) => z,
        (None, Some(k)) => m * &k,
        (None, None) => unreachable!(),
    };

    Ok((m, z))
""")))
E("composites_both_accumulate", F(co, (LBODY, """        m = m + &(c * &di);
        if k_option.is_none() {
            z = z + &(d * &di);
        }
    }

    if let Some(k) = &k_option {
        z = m * k;
    }

    Ok((m, z))
""")))
E("composites_manual_index", F(co, ("    for (i, (c, d)) in (0..len).zip(c_slice.zip(d_slice)) {\n", "    let mut i = 0_u16;\n    for (c, d) in c_slice.zip(d_slice) {\n"),
    (LBODY, LBODY.replace("        };\n    }\n", "        };\n        i = i.wrapping_add(1);\n    }\n", 1)), ("    let len = u16::try_from(c_slice.len())", "    u16::try_from(c_slice.len())")))
HI = """    let mut hash = CS::Hash::new()
        .chain_update(i2osp_2(input.as_ref().len()).map_err(|_| Error::Input)?)
        .chain_update(input.as_ref());
    if let Some(info) = info {
        hash = hash
            .chain_update(i2osp_2(info.as_ref().len()).map_err(|_| Error::Input)?)
            .chain_update(info.as_ref());
    }
    Ok(hash
        .chain_update(i2osp_2(issued_element.as_ref().len()).map_err(|_| Error::Input)?)
        .chain_update(issued_element)
        .chain_update(STR_FINALIZE)
        .finalize())
"""
E("hash_input_frames", F(co, (HI, """    let mut hash = CS::Hash::new();
    let frames = [Some(input), info, Some(issued_element.as_slice())];
    for frame in frames.into_iter().flatten() {
        hash.update(i2osp_2(frame.len()).map_err(|_| Error::Input)?);
        hash.update(frame);
    }
    hash.update(STR_FINALIZE);
    Ok(hash.finalize())
""")))
E("hash_input_lens_first", F(co, (HI, """    let input_len = i2osp_2(input.len()).map_err(|_| Error::Input)?;
    let info = match info {
        Some(info) => Some((i2osp_2(info.len()).map_err(|_| Error::Input)?, info)),
        None => None,
    };
    let issued_len = i2osp_2(issued_element.len()).map_err(|_| Error::Input)?;

    let mut hash = CS::Hash::new();
    hash.update(input_len);
    hash.update(input);
    if let Some((len, info)) = info {
        hash.update(len);
        hash.update(info);
    }
    Ok(hash
        .chain_update(issued_len)
        .chain_update(issued_element)
        .chain_update(STR_FINALIZE)
        .finalize())
""")))
E("hash_input_absorb_closure", F(co, (HI, """    let absorb = |hash: CS::Hash, data: &[u8]| -> Result<CS::Hash> {
        let len = i2osp_2(data.len()).map_err(|_| Error::Input)?;
        Ok(hash.chain_update(len).chain_update(data))
    };
    let hash = absorb(CS::Hash::new(), input)?;
    let hash = info.map_or(Ok(hash.clone()), |info| absorb(hash, info))?;
    Ok(absorb(hash, &issued_element)?.chain_update(STR_FINALIZE).finalize())
""".replace("hash.clone()", "hash.clone()")))) if False else None
E("hash_input_absorb_closure", F(co, (HI, """    let absorb = |hash: CS::Hash, data: &[u8]| -> Result<CS::Hash> {
        let len = i2osp_2(data.len()).map_err(|_| Error::Input)?;
        Ok(hash.chain_update(len).chain_update(data))
    };
    let mut hash = absorb(CS::Hash::new(), input)?;
    if let Some(info) = info {
        hash = absorb(hash, info)?;
    }
    let hash = absorb(hash, &issued_element)?;
    Ok(hash.chain_update(STR_FINALIZE).finalize())
""")))
BL = """    let hashed_point = hash_to_group::<CS>(input, mode)?;
    if CS::Group::is_identity_elem(hashed_point).into() {
        return Err(Error::Input);
    };
    Ok(hashed_point * blind)
"""
E("blind_map_filter", F(co, (BL, """    hash_to_group::<CS>(input, mode)
        .ok()
        .filter(|point| !bool::from(CS::Group::is_identity_elem(*point)))
        .map(|point| point * blind)
        .ok_or(Error::Input)
""")))
E("blind_match_choice", F(co, (BL, """    let point = hash_to_group::<CS>(input, mode)?;
    match bool::from(CS::Group::is_identity_elem(point)) {
        false => Ok(point * blind),
        true => Err(Error::Input),
    }
""")))
VE = """        let input_element = hash_to_group::<CS>(input, Mode::Voprf)?;
        if CS::Group::is_identity_elem(input_element).into() {
            return Err(Error::Input);
        };
        let evaluated_element = input_element * &self.sk;

        let issued_element = CS::Group::serialize_elem(evaluated_element);

        server_evaluate_hash_input::<CS>(input, None, issued_element)
"""
E("vo_eval_shared_hash", F(vo, (VE, """        hash_to_group::<CS>(input, Mode::Voprf).and_then(|point| {
            if CS::Group::is_identity_elem(point).into() {
                Err(Error::Input)
            } else {
                let issued = CS::Group::serialize_elem(point * &self.sk);
                server_evaluate_hash_input::<CS>(input, None, issued)
            }
        })
""")))
E("vo_eval_finalize", F(vo, (VE, """        let point = deterministic_blind_unchecked::<CS>(input, &self.sk, Mode::Voprf)?;
        let mut outputs = finalize_after_unblind::<CS, _, _>(iter::once((input, point)));
        outputs.next().unwrap()
""")))
BE = """        let mut prepared_evaluation_elements =
            self.batch_blind_evaluate_prepare(iter::once(blinded_element));
        let prepared_evaluation_element = [prepared_evaluation_elements.next().unwrap()];

        // This can't fail because we know the size of the inputs.
        let VoprfServerBatchEvaluateFinishResult {
            mut messages,
            proof,
        } = self
            .batch_blind_evaluate_finish(
                rng,
                iter::once(blinded_element),
                &prepared_evaluation_element,
            )
            .unwrap();

        let message = messages.next().unwrap();

        VoprfServerEvaluateResult { message, proof }
"""
E("vo_be_generate", F(vo, (BE, """        let evaluated = blinded_element.0 * &self.sk;
        // This can't fail because we know the size of the inputs.
        let proof = generate_proof(
            rng,
            self.sk,
            CS::Group::base_elem(),
            self.pk,
            core::iter::once(blinded_element.0),
            core::iter::once(evaluated),
            Mode::Voprf,
        )
        .unwrap();

        VoprfServerEvaluateResult {
            message: EvaluationElement(evaluated),
            proof,
        }
""")))
E("vo_be_single", F(vo, (BE, """        let blinded = core::slice::from_ref(blinded_element);
        let prepared = self
            .batch_blind_evaluate_prepare(blinded.iter())
            .next()
            .unwrap();
        let finished = self
            .batch_blind_evaluate_finish(rng, blinded.iter(), core::slice::from_ref(&prepared))
            .unwrap();
        let proof = finished.proof.clone();
        let message = finished.messages.last().unwrap();

        VoprfServerEvaluateResult { message, proof }
"""))) if False else None
VF = """        let unblinded_elements = verifiable_unblind(clients, messages, pk, proof)?;
        let inputs = inputs.into_iter();

        if inputs.len() != unblinded_elements.len() {
            return Err(Error::Batch);
        }

        let inputs_and_unblinded_elements = inputs.zip(unblinded_elements);
        Ok(finalize_after_unblind::<CS, _, _>(
            inputs_and_unblinded_elements,
        ))
"""
E("vo_bf_map", F(vo, (VF, """        let inputs = inputs.into_iter();

        verifiable_unblind(clients, messages, pk, proof).and_then(|unblinded| {
            if inputs.len() == unblinded.len() {
                Ok(finalize_after_unblind::<CS, _, _>(inputs.zip(unblinded)))
            } else {
                Err(Error::Batch)
            }
        })
""")))
VU = """    let g = CS::Group::base_elem();

    let blinds = clients
        .into_iter()
        // Convert to `fn` pointer to make a return type possible.
        .map(<fn(&VoprfClient<CS>) -> _>::from(|x| x.blind));
    let evaluation_elements = messages.into_iter().map(|element| element.0);
    let blinded_elements = clients.into_iter().map(|client| client.blinded_element);

    verify_proof(
        g,
        pk,
        blinded_elements,
        evaluation_elements,
        proof,
        Mode::Voprf,
    )?;

    Ok(blinds
        .zip(messages)
        .map(|(blind, x)| x.0 * &CS::Group::invert_scalar(blind)))
"""
E("vo_unblind_nested_fns", F(vo, (VU, """    fn blind_of<CS: CipherSuite>(client: &VoprfClient<CS>) -> <CS::Group as Group>::Scalar
    where
        <CS::Hash as OutputSizeUser>::OutputSize:
            IsLess<U256> + IsLessOrEqual<<CS::Hash as BlockSizeUser>::BlockSize>,
    {
        client.blind
    }

    fn unblind<CS: CipherSuite>(
        (blind, message): (<CS::Group as Group>::Scalar, &EvaluationElement<CS>),
    ) -> <CS::Group as Group>::Elem
    where
        <CS::Hash as OutputSizeUser>::OutputSize:
            IsLess<U256> + IsLessOrEqual<<CS::Hash as BlockSizeUser>::BlockSize>,
    {
        let inverse = CS::Group::invert_scalar(blind);
        message.0 * &inverse
    }

    verify_proof(
        CS::Group::base_elem(),
        pk,
        clients.into_iter().map(|client| client.blinded_element),
        messages.into_iter().map(|message| message.0),
        proof,
        Mode::Voprf,
    )?;

    let blinds = clients
        .into_iter()
        .map(<fn(&VoprfClient<CS>) -> _>::from(|client| blind_of::<CS>(client)));
    Ok(blinds.zip(messages).map(|pair| unblind::<CS>(pair)))
""")))
NS = """        let mut seed = GenericArray::<_, <CS::Group as Group>::ScalarLen>::default();
        rng.fill_bytes(&mut seed);
        // This can't fail as the hash output is type constrained.
        Self::new_from_seed(&seed, &[])
"""
E("vo_new_direct", F(vo, (NS, """        let mut seed = GenericArray::<u8, <CS::Group as Group>::ScalarLen>::default();
        rng.fill_bytes(seed.as_mut_slice());
        derive_keypair::<CS>(&seed, b"", Mode::Voprf).map(|(sk, pk)| Self { sk, pk })
""")))
E("i2osp_try_from", F(co, ("""    u16::try_from(L::USIZE + self.dst_2.len())
            .unwrap()
            .to_be_bytes()
""", """    let [first, second] = self.as_dst();
        let len = first.len() + second.len();
        // `new` checks the length.
        (len as u16).to_be_bytes()
""")))
E("dst_prefix_fn", F(co, ("""        let par_2 = GenericArray::from(STR_OPRF)
            .concat([mode.to_u8()].into())
            .concat([b'-'].into());
""", """        let suffix: GenericArray<u8, generic_array::typenum::U2> = [mode.to_u8(), b'-'].into();
        let par_2 = GenericArray::from(STR_OPRF).concat(suffix);
""")))
E("multi_for_each", F(co, ("""        for data in datas {
            self.update(data)
        }

        self
""", """        datas.iter().for_each(|data| self.update(data));
        self
""")))
E("multi_recursive", F(co, ("""    fn chain_update_multi(mut self, datas: &[&[u8]]) -> Self {
        for data in datas {
            self.update(data)
        }

        self
""", """    fn chain_update_multi(mut self, datas: &[&[u8]]) -> Self {
        let mut rest = datas;
        while let [data, tail @ ..] = rest {
            self.update(data);
            rest = tail;
        }
        self
""")))
DE = """    let input = input
        .take_ext(G::ElemLen::USIZE)
        .ok_or(Error::Deserialization)?;
    G::deserialize_elem(input)
"""
E("de_elem_chain", F(se, (DE, """    match input.take_ext(G::ElemLen::USIZE) {
        Some(bytes) => G::deserialize_elem(bytes),
        None => Err(Error::Deserialization),
    }
"""), (DE.replace("Elem", "Scalar").replace("_elem", "_scalar"), """    input
        .take_ext(G::ScalarLen::USIZE)
        .map_or(Err(Error::Deserialization), G::deserialize_scalar)
""")))
E("info_macro_free", F(po, ("        let (tweaked_key, framed_info)", "        let (tweaked_key, framed_info)"))) if False else None
E("is_match_arms", F(ri, ("""            .filter(|point| point != &RistrettoPoint::identity())
            .ok_or(Error::Deserialization)
""", """            .ok_or(Error::Deserialization)
            .and_then(|elem| {
                if elem == RistrettoPoint::identity() {
                    Err(Error::Deserialization)
                } else {
                    Ok(elem)
                }
            })
""")))
E("commit_reverse_reads", F(co, ("""    let r = CS::Group::random_scalar(rng);
    let t2 = a * &r;
    let t3 = m * &r;
""", """    let r = CS::Group::random_scalar(rng);
    let (t2, t3) = {
        let commit = |point: <CS::Group as Group>::Elem| point * &r;
        (commit(a), commit(m))
    };
"""), ("    Ok(Proof { c_scalar, s_scalar })\n", """    let mut proof = Proof {
        c_scalar,
        s_scalar: r,
    };
    proof.s_scalar = s_scalar;
    Ok(proof)
""")))
C = {k: v for k, v in C.items() if v and v[0] and k != "derive_counter_slot"}  # the counter kept in a byte buffer: not summarised

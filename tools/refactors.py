"""Behaviour-preserving edits of /repo/src: every check must stay quiet."""
C = {}


def E(name, *edits):
    C[name] = list(edits)


W = """where
    <CS::Hash as OutputSizeUser>::OutputSize:
        IsLess<U256> + IsLessOrEqual<<CS::Hash as BlockSizeUser>::BlockSize>,
"""
co, op, vo, po, se = "common.rs", "oprf.rs", "voprf.rs", "poprf.rs", "serialization.rs"
ec, ri, gm = "group/elliptic_curve.rs", "group/ristretto.rs", "group/mod.rs"

# --- common.rs ----------------------------------------------------------------
E("co_challenge_helper",
  (co, """    let (m, z) = compute_composites::<CS, _, _>(Some(k), b, cs, ds, mode)?;

    let r = CS::Group::random_scalar(rng);
    let t2 = a * &r;
    let t3 = m * &r;

    // Bm = GG.SerializeElement(B)
    let bm = CS::Group::serialize_elem(b);
    // a0 = GG.SerializeElement(M)
    let a0 = CS::Group::serialize_elem(m);
    // a1 = GG.SerializeElement(Z)
    let a1 = CS::Group::serialize_elem(z);
    // a2 = GG.SerializeElement(t2)
    let a2 = CS::Group::serialize_elem(t2);
    // a3 = GG.SerializeElement(t3)
    let a3 = CS::Group::serialize_elem(t3);

    let elem_len = <CS::Group as Group>::ElemLen::U16.to_be_bytes();

    // h2Input = I2OSP(len(Bm), 2) || Bm ||
    //           I2OSP(len(a0), 2) || a0 ||
    //           I2OSP(len(a1), 2) || a1 ||
    //           I2OSP(len(a2), 2) || a2 ||
    //           I2OSP(len(a3), 2) || a3 ||
    //           "Challenge"
    let h2_input = [
        &elem_len,
        bm.as_slice(),
        &elem_len,
        &a0,
        &elem_len,
        &a1,
        &elem_len,
        &a2,
        &elem_len,
        &a3,
        &STR_CHALLENGE,
    ];

    let dst = Dst::new::<CS, _, _>(STR_HASH_TO_SCALAR, mode);
    // This can't fail, the size of the `input` is known.
    let c_scalar = CS::Group::hash_to_scalar::<CS::Hash>(&h2_input, &dst.as_dst()).unwrap();
    let s_scalar""", """    let (m, z) = compute_composites::<CS, _, _>(Some(k), b, cs, ds, mode)?;

    let r = CS::Group::random_scalar(rng);
    let c_scalar = challenge::<CS>(&[b, m, z, a * &r, m * &r], mode);
    let s_scalar"""),
  (co, """    // Bm = GG.SerializeElement(B)
    let bm = CS::Group::serialize_elem(b);
    // a0 = GG.SerializeElement(M)
    let a0 = CS::Group::serialize_elem(m);
    // a1 = GG.SerializeElement(Z)
    let a1 = CS::Group::serialize_elem(z);
    // a2 = GG.SerializeElement(t2)
    let a2 = CS::Group::serialize_elem(t2);
    // a3 = GG.SerializeElement(t3)
    let a3 = CS::Group::serialize_elem(t3);

    let elem_len = <CS::Group as Group>::ElemLen::U16.to_be_bytes();

    // h2Input = I2OSP(len(Bm), 2) || Bm ||
    //           I2OSP(len(a0), 2) || a0 ||
    //           I2OSP(len(a1), 2) || a1 ||
    //           I2OSP(len(a2), 2) || a2 ||
    //           I2OSP(len(a3), 2) || a3 ||
    //           "Challenge"
    let h2_input = [
        &elem_len,
        bm.as_slice(),
        &elem_len,
        &a0,
        &elem_len,
        &a1,
        &elem_len,
        &a2,
        &elem_len,
        &a3,
        &STR_CHALLENGE,
    ];

    let dst = Dst::new::<CS, _, _>(STR_HASH_TO_SCALAR, mode);
    // This can't fail, the size of the `input` is known.
    let c = CS::Group::hash_to_scalar::<CS::Hash>(&h2_input, &dst.as_dst()).unwrap();
""", """    let c = challenge::<CS>(&[b, m, z, t2, t3], mode);
"""),
  (co, """type ComputeCompositesResult<CS> = (""", """fn challenge<CS: CipherSuite>(e: &[<CS::Group as Group>::Elem; 5], mode: Mode) -> <CS::Group as Group>::Scalar
""" + W + """{
    let elem_len = <CS::Group as Group>::ElemLen::U16.to_be_bytes();
    let [bm, a0, a1, a2, a3] = e.map(CS::Group::serialize_elem);
    let h2_input = [
        elem_len.as_slice(),
        &bm,
        &elem_len,
        &a0,
        &elem_len,
        &a1,
        &elem_len,
        &a2,
        &elem_len,
        &a3,
        &STR_CHALLENGE,
    ];
    let dst = Dst::new::<CS, _, _>(STR_HASH_TO_SCALAR, mode);
    CS::Group::hash_to_scalar::<CS::Hash>(&h2_input, &dst.as_dst()).unwrap()
}

type ComputeCompositesResult<CS> = ("""))
E("co_verify_if", (co, """    match c.ct_eq(&proof.c_scalar).into() {
        true => Ok(()),
        false => Err(Error::ProofVerification),
    }""", """    if bool::from(c.ct_eq(&proof.c_scalar)) {
        return Ok(());
    }
    Err(Error::ProofVerification)"""))
E("co_verify_ne", (co, """    match c.ct_eq(&proof.c_scalar).into() {
        true => Ok(()),
        false => Err(Error::ProofVerification),
    }""", """    let mismatch: bool = (!proof.c_scalar.ct_eq(&c)).into();
    if mismatch {
        Err(Error::ProofVerification)
    } else {
        Ok(())
    }"""))
E("co_verify_then", (co, """    match c.ct_eq(&proof.c_scalar).into() {
        true => Ok(()),
        false => Err(Error::ProofVerification),
    }""", """    bool::from(c.ct_eq(&proof.c_scalar))
        .then_some(())
        .ok_or(Error::ProofVerification)"""))
E("co_order", (co, """    let t2 = (a * &proof.s_scalar) + &(b * &proof.c_scalar);
    let t3 = (m * &proof.s_scalar) + &(z * &proof.c_scalar);
""", """    let Proof { c_scalar, s_scalar } = proof;
    let t3 = (z * c_scalar) + &(m * s_scalar);
    let t2 = (b * c_scalar) + &(a * s_scalar);
"""))
E("co_composites_two_loops", (co, """        m = c * &di + &m;
        z = match k_option {
            Some(_) => z,
            None => d * &di + &z,
        };
    }

    z = match k_option {
        Some(k) => m * &k,
        None => z,
    };

    Ok((m, z))""", """        m = m + &(c * &di);
        if k_option.is_none() {
            z = z + &(d * &di);
        }
    }

    if let Some(k) = k_option {
        z = m * &k;
    }

    Ok((m, z))"""))
E("co_composites_helper", (co, """        let h2_input = [
            seed_len.as_slice(),
            &seed,
            &i.to_be_bytes(),
            &elem_len,
            &ci,
            &elem_len,
            &di,
            &STR_COMPOSITE,
        ];

        let dst = Dst::new::<CS, _, _>(STR_HASH_TO_SCALAR, mode);
        // This can't fail, the size of the `input` is known.
        let di = CS::Group::hash_to_scalar::<CS::Hash>(&h2_input, &dst.as_dst()).unwrap();
        m = c""", """        let i = i.to_be_bytes();
        let hash = |input: &[&[u8]]| {
            CS::Group::hash_to_scalar::<CS::Hash>(input, &composite_dst.as_dst()).unwrap()
        };
        let di = hash(&[
            &seed_len, &seed, &i, &elem_len, &ci, &elem_len, &di, &STR_COMPOSITE,
        ]);
        m = c"""), (co, """    let mut m = CS::Group::identity_elem();
""", """    let composite_dst = Dst::new::<CS, _, _>(STR_HASH_TO_SCALAR, mode);
    let mut m = CS::Group::identity_elem();
"""))
E("co_composites_while", (co, """    for (i, (c, d)) in (0..len).zip(c_slice.zip(d_slice)) {
""", """    let mut pairs = c_slice.zip(d_slice);
    let mut i = 0_u16;
    while let Some((c, d)) = pairs.next() {
"""), (co, """        z = match k_option {
            Some(_) => z,
            None => d * &di + &z,
        };
    }
""", """        z = match k_option {
            Some(_) => z,
            None => d * &di + &z,
        };
        i = i.wrapping_add(1);
    }
    debug_assert_eq!(i, len);
"""))
E("co_composites_enumerate", (co, """    for (i, (c, d)) in (0..len).zip(c_slice.zip(d_slice)) {
""", """    let _ = len;
    for (i, (c, d)) in c_slice.zip(d_slice).enumerate() {
        let i = i as u16;
"""))
E("co_composites_fold", (co, """    let mut m = CS::Group::identity_elem();
    let mut z = CS::Group::identity_elem();

    for (i, (c, d)) in (0..len).zip(c_slice.zip(d_slice)) {
""", """    let zero = (CS::Group::identity_elem(), CS::Group::identity_elem());
    let (m, mut z) = (0..len).zip(c_slice.zip(d_slice)).fold(zero, |(m, z), (i, (c, d))| {
"""), (co, """        m = c * &di + &m;
        z = match k_option {
            Some(_) => z,
            None => d * &di + &z,
        };
    }
""", """        (c * &di + &m, match k_option {
            Some(_) => z,
            None => d * &di + &z,
        })
    });
"""))
E("co_composites_seed_update", (co, """    let seed = CS::Hash::new()
        .chain_update(elem_len)
        .chain_update(CS::Group::serialize_elem(b))
        .chain_update(seed_dst.i2osp_2())
        .chain_update_multi(&seed_dst.as_dst())
        .finalize();
""", """    let mut hash = CS::Hash::new();
    Digest::update(&mut hash, elem_len);
    Digest::update(&mut hash, CS::Group::serialize_elem(b));
    Digest::update(&mut hash, seed_dst.i2osp_2());
    for part in seed_dst.as_dst() {
        Digest::update(&mut hash, part);
    }
    let seed = Digest::finalize(hash);
"""))
E("co_batch_check", (co, """    if c_slice.len() != d_slice.len() {
        return Err(Error::Batch);
    }

    let len = u16::try_from(c_slice.len()).map_err(|_| Error::Batch)?;
""", """    let len = match u16::try_from(c_slice.len()) {
        Ok(len) if d_slice.len() == usize::from(len) => len,
        _ => return Err(Error::Batch),
    };
"""))
E("co_derive_loop", (co, """    for counter in 0_u8..=u8::MAX {
        // deriveInput = seed || I2OSP(len(info), 2) || info
        // skS = G.HashToScalar(deriveInput || I2OSP(counter, 1), DST = "DeriveKeyPair"
        // || contextString)
        let sk_s = CS::Group::hash_to_scalar::<CS::Hash>(
            &[seed, &info_len, info, &counter.to_be_bytes()],
            &dst.as_dst(),
        )
        .map_err(|_| Error::DeriveKeyPair)?;

        if !bool::from(CS::Group::is_zero_scalar(sk_s)) {
            return Ok(sk_s);
        }
    }

    Err(Error::Protocol)""", """    let mut counter = 0_u8;
    loop {
        let suffix = [counter];
        let input = [seed, &info_len, info, &suffix];
        let sk_s = match CS::Group::hash_to_scalar::<CS::Hash>(&input, &dst.as_dst()) {
            Ok(s) => s,
            Err(_) => return Err(Error::DeriveKeyPair),
        };

        if !bool::from(CS::Group::is_zero_scalar(sk_s)) {
            return Ok(sk_s);
        }
        if counter == u8::MAX {
            return Err(Error::Protocol);
        }
        counter += 1;
    }"""))
E("co_derive_checked", (co, """    for counter in 0_u8..=u8::MAX {
""", """    let mut next = Some(0_u8);
    while let Some(counter) = next {
        next = counter.checked_add(1);
"""))
E("co_derive_find", (co, """    for counter in 0_u8..=u8::MAX {
        // deriveInput = seed || I2OSP(len(info), 2) || info
        // skS = G.HashToScalar(deriveInput || I2OSP(counter, 1), DST = "DeriveKeyPair"
        // || contextString)
        let sk_s = CS::Group::hash_to_scalar::<CS::Hash>(
            &[seed, &info_len, info, &counter.to_be_bytes()],
            &dst.as_dst(),
        )
        .map_err(|_| Error::DeriveKeyPair)?;

        if !bool::from(CS::Group::is_zero_scalar(sk_s)) {
            return Ok(sk_s);
        }
    }

    Err(Error::Protocol)""", """    (0_u8..=u8::MAX)
        .map(|counter| {
            CS::Group::hash_to_scalar::<CS::Hash>(
                &[seed, &info_len, info, &[counter]],
                &dst.as_dst(),
            )
            .map_err(|_| Error::DeriveKeyPair)
        })
        .find(|res| match res {
            Ok(sk) => !bool::from(CS::Group::is_zero_scalar(*sk)),
            Err(_) => true,
        })
        .unwrap_or(Err(Error::Protocol))"""))
E("co_blind_and_then", (co, """    let hashed_point = hash_to_group::<CS>(input, mode)?;
    if CS::Group::is_identity_elem(hashed_point).into() {
        return Err(Error::Input);
    };
    Ok(hashed_point * blind)""", """    hash_to_group::<CS>(input, mode).and_then(|point| {
        match bool::from(CS::Group::is_identity_elem(point)) {
            false => Ok(point * blind),
            true => Err(Error::Input),
        }
    })"""))
E("co_hash_len_check", (co, """    i2osp_2(input.len()).map_err(|_| Error::Input)?;

    let dst""", """    if input.len() > usize::from(u16::MAX) {
        return Err(Error::Input);
    }

    let dst"""))
E("co_finalize_match", (co, """    let mut hash = CS::Hash::new()
        .chain_update(i2osp_2(input.as_ref().len()).map_err(|_| Error::Input)?)
        .chain_update(input.as_ref());
    if let Some(info) = info {
        hash = hash
            .chain_update(i2osp_2(info.as_ref().len()).map_err(|_| Error::Input)?)
            .chain_update(info.as_ref());
    }
    Ok(hash
        .chain_update(i2osp_2(issued_element.as_ref().len()).map_err(|_| Error::Input)?)
        .chain_update(issued_element)
        .chain_update(STR_FINALIZE)
        .finalize())""", """    let input_len = i2osp_2(input.len()).map_err(|_| Error::Input)?;
    let issued_len = <CS::Group as Group>::ElemLen::U16.to_be_bytes();
    let prefix = CS::Hash::new().chain_update(input_len).chain_update(input);
    let prefix = match info {
        None => prefix,
        Some(info) => {
            let info_len = i2osp_2(info.len()).map_err(|_| Error::Input)?;
            prefix.chain_update(info_len).chain_update(info)
        }
    };
    let hash = prefix
        .chain_update(issued_len)
        .chain_update(issued_element)
        .chain_update(STR_FINALIZE)
        .finalize();
    Ok(hash)"""))
E("co_dst_inline", (co, """        let par_2 = GenericArray::from(STR_OPRF)
            .concat([mode.to_u8()].into())
            .concat([b'-'].into());

        let dst_1 = par_1.concat(par_2);
        let dst_2 = CS::ID;
""", """        let dst_2 = CS::ID;
        let mode: GenericArray<u8, generic_array::typenum::U1> = [mode.to_u8()].into();
        let sep: GenericArray<u8, generic_array::typenum::U1> = [b'-'].into();
        let dst_1 = par_1.concat(GenericArray::from(STR_OPRF).concat(mode).concat(sep));
"""))
E("co_i2osp", (co, """    u16::try_from(input)
        .map(|input| input.to_be_bytes())
        .map_err(|_| InternalError::I2osp)""", """    match u16::try_from(input) {
        Ok(v) => Ok([(v >> 8) as u8, v as u8]),
        Err(_) => Err(InternalError::I2osp),
    }"""))
E("co_i2osp_cmp", (co, """    u16::try_from(input)
        .map(|input| input.to_be_bytes())
        .map_err(|_| InternalError::I2osp)""", """    if input > u16::MAX as usize {
        return Err(InternalError::I2osp);
    }
    Ok((input as u16).to_be_bytes())"""))
E("co_to_u8", (co, """pub fn to_u8(self) -> u8 {
        match self {
            Mode::Oprf => 0,
            Mode::Voprf => 1,
            Mode::Poprf => 2,
        }""", """pub fn to_u8(self) -> u8 {
        self as u8""")) if False else None
E("co_multi", (co, """        for data in datas {
            self.update(data)
        }

        self""", """        datas.iter().for_each(|data| self.update(data));
        self"""))
E("co_multi_fold", (co, """    fn chain_update_multi(mut self, datas: &[&[u8]]) -> Self {
        for data in datas {
            self.update(data)
        }

        self""", """    fn chain_update_multi(self, datas: &[&[u8]]) -> Self {
        datas.iter().fold(self, |hash, data| hash.chain_update(data))"""))
E("co_early_nonce", (co, """    let (m, z) = compute_composites::<CS, _, _>(Some(k), b, cs, ds, mode)?;

    let r = CS::Group::random_scalar(rng);
    let t2 = a * &r;""", """    let composites = compute_composites::<CS, _, _>(Some(k), b, cs, ds, mode);
    let (m, z) = match composites {
        Ok(pair) => pair,
        Err(e) => return Err(e),
    };

    let r = CS::Group::random_scalar(rng);
    let t2 = a * &r;"""))
E("co_s_scalar", (co, """    let s_scalar = r - &(c_scalar * &k);

    Ok(Proof { c_scalar, s_scalar })""", """    let ck = k * &c_scalar;

    Ok(Proof { s_scalar: r - &ck, c_scalar })"""))

# --- oprf.rs --------------------------------------------------------------------
E("op_finalize_direct", (op, """        let unblinded_element = evaluation_element.0 * &CS::Group::invert_scalar(self.blind);
        let mut outputs =
            finalize_after_unblind::<CS, _, _>(iter::once((input, unblinded_element)), &[]);
        outputs.next().unwrap()""", """        let inverse = CS::Group::invert_scalar(self.blind);
        let unblinded = evaluation_element.0 * &inverse;
        finalize_after_unblind::<CS, _, _>([(input, unblinded)].into_iter(), &[])
            .next()
            .unwrap()"""))
E("op_shared_evaluate", (op, """        let input_element = hash_to_group::<CS>(input, Mode::Oprf)?;
        if CS::Group::is_identity_elem(input_element).into() {
            return Err(Error::Input);
        };
        let evaluated_element = input_element * &self.sk;

        let issued_element = CS::Group::serialize_elem(evaluated_element);

        server_evaluate_hash_input::<CS>(input, None, issued_element)""", """        let evaluated_element =
            crate::common::deterministic_blind_unchecked::<CS>(input, &self.sk, Mode::Oprf)?;
        let issued_element = CS::Group::serialize_elem(evaluated_element);
        server_evaluate_hash_input::<CS>(input, None, issued_element)"""))
E("op_new", (op, """        let mut seed = GenericArray::<_, <CS::Group as Group>::ScalarLen>::default();
        rng.fill_bytes(&mut seed);
        Self::new_from_seed(&seed, &[])""", """        let seed = {
            let mut bytes: GenericArray<u8, <CS::Group as Group>::ScalarLen> = GenericArray::default();
            rng.fill_bytes(bytes.as_mut_slice());
            bytes
        };
        derive_key_internal::<CS>(&seed, b"", Mode::Oprf).map(|sk| Self { sk })"""))
E("op_new_with_key", (op, """        let sk = CS::Group::deserialize_scalar(private_key_bytes)?;
        Ok(Self { sk })""", """        match CS::Group::deserialize_scalar(private_key_bytes) {
            Ok(sk) => Ok(Self { sk }),
            Err(error) => Err(error),
        }"""))
E("op_blind_evaluate", (op, """        EvaluationElement(blinded_element.0 * &self.sk)""", """        let BlindedElement(point) = blinded_element;
        let evaluated = *point * &self.sk;
        EvaluationElement(evaluated)""")) if False else None
E("op_blind_inline", (op, """        let blind = CS::Group::random_scalar(blinding_factor_rng);
        Self::deterministic_blind_unchecked_inner(input, blind)
    }

    /// Computes""", """        let blind = CS::Group::random_scalar(blinding_factor_rng);
        let element = deterministic_blind_unchecked::<CS>(input, &blind, Mode::Oprf)?;
        let state = Self { blind };
        let message = BlindedElement(element);
        Ok(OprfClientBlindResult { message, state })
    }

    /// Computes"""))

# --- voprf.rs -------------------------------------------------------------------
E("vo_blind_evaluate_array", (vo, """        let mut prepared_evaluation_elements =
            self.batch_blind_evaluate_prepare(iter::once(blinded_element));
        let prepared_evaluation_element = [prepared_evaluation_elements.next().unwrap()];
""", """        let prepared_evaluation_element =
            [PreparedEvaluationElement(EvaluationElement(blinded_element.0 * &self.sk))];
"""))
E("vo_finish_helper", (vo, """        let g = CS::Group::base_elem();
        let proof = generate_proof(
            rng,
            self.sk,
            g,
            self.pk,
            blinded_elements.map(|element| element.0),
            evaluation_elements.into_iter().map(|element| element.0 .0),
            Mode::Voprf,
        )?;
""", """        let blinded = blinded_elements.map(|BlindedElement(element)| *element);
        let evaluated = evaluation_elements
            .into_iter()
            .map(|prepared| prepared.0 .0);
        let proof = self.prove(rng, blinded, evaluated)?;
""" ) if False else (vo, """        let g = CS::Group::base_elem();
        let proof = generate_proof(
            rng,
            self.sk,
            g,
            self.pk,
            blinded_elements.map(|element| element.0),
            evaluation_elements.into_iter().map(|element| element.0 .0),
            Mode::Voprf,
        )?;
""", """        let blinded = blinded_elements.map(|element| element.0);
        let evaluated = evaluation_elements.into_iter().map(|prepared| prepared.0 .0);
        let proof = self.prove(rng, blinded, evaluated)?;
"""), (vo, """    /// Computes the output of the POPRF on the server side
""", """    fn prove<R: RngCore + CryptoRng>(
        &self,
        rng: &mut R,
        blinded: impl Iterator<Item = <CS::Group as Group>::Elem> + ExactSizeIterator,
        evaluated: impl Iterator<Item = <CS::Group as Group>::Elem> + ExactSizeIterator,
    ) -> Result<Proof<CS>> {
        generate_proof(rng, self.sk, CS::Group::base_elem(), self.pk, blinded, evaluated, Mode::Voprf)
    }

    /// Computes the output of the POPRF on the server side
"""))
E("vo_len_check", (vo, """        let unblinded_elements = verifiable_unblind(clients, messages, pk, proof)?;
        let inputs = inputs.into_iter();

        if inputs.len() != unblinded_elements.len() {
            return Err(Error::Batch);
        }

        let inputs_and_unblinded_elements = inputs.zip(unblinded_elements);
        Ok(finalize_after_unblind::<CS, _, _>(
            inputs_and_unblinded_elements,
            &[],
        ))""", """        let elements = verifiable_unblind(clients, messages, pk, proof)?;
        let inputs = inputs.into_iter();

        match inputs.len() == elements.len() {
            false => Err(Error::Batch),
            true => Ok(finalize_after_unblind::<CS, _, _>(inputs.zip(elements), &[])),
        }""")) if False else None
E("vo_finalize_slices", (vo, """        let inputs = core::array::from_ref(&input);
        let clients = core::array::from_ref(self);
        let messages = core::array::from_ref(evaluation_element);

        let mut batch_result = Self::batch_finalize(inputs, clients, messages, proof, pk)?;
        batch_result.next().unwrap()""", """        let inputs = [input];
        let clients = core::slice::from_ref(self);
        let messages = core::slice::from_ref(evaluation_element);

        Self::batch_finalize(&inputs, &clients, &messages, proof, pk)?.next().unwrap()""")) if False else None
E("vo_finalize_match", (vo, """        let mut batch_result = Self::batch_finalize(inputs, clients, messages, proof, pk)?;
        batch_result.next().unwrap()""", """        match Self::batch_finalize(inputs, clients, messages, proof, pk) {
            Ok(mut results) => results.next().unwrap(),
            Err(e) => Err(e),
        }"""))
E("vo_batch_loop", (vo, """        let prepared_evaluation_elements = self
            .batch_blind_evaluate_prepare(blinded_elements.into_iter())
            .collect();
""", """        let mut prepared_evaluation_elements = Vec::new();
        for element in self.batch_blind_evaluate_prepare(blinded_elements.into_iter()) {
            prepared_evaluation_elements.push(element);
        }
"""))
E("vo_batch_loop2", (vo, """        let prepared_evaluation_elements = self
            .batch_blind_evaluate_prepare(blinded_elements.into_iter())
            .collect();
""", """        let mut prepared_evaluation_elements = Vec::with_capacity(blinded_elements.into_iter().len());
        prepared_evaluation_elements
            .extend(self.batch_blind_evaluate_prepare(blinded_elements.into_iter()));
"""))
E("vo_keypair", (vo, """        let sk = CS::Group::deserialize_scalar(key)?;
        let pk = CS::Group::base_elem() * &sk;
        Ok(Self { sk, pk })""", """        CS::Group::deserialize_scalar(key).map(|sk| Self {
            pk: CS::Group::base_elem() * &sk,
            sk,
        })"""))
E("vo_prepare_map", (vo, """        blinded_elements
            .zip(iter::repeat(self.sk))
            .map(|(blinded_element, sk)| {
                PreparedEvaluationElement(EvaluationElement(blinded_element.0 * &sk))
            })""", """        let keys = iter::repeat(self.sk);
        blinded_elements.zip(keys).map(|pair| {
            let (element, sk) = pair;
            let product = element.0 * &sk;
            PreparedEvaluationElement(EvaluationElement(product))
        })"""))
E("vo_identity_helper", (vo, """        let input_element = hash_to_group::<CS>(input, Mode::Voprf)?;
        if CS::Group::is_identity_elem(input_element).into() {
            return Err(Error::Input);
        };
        let evaluated_element = input_element * &self.sk;
""", """        let evaluated_element = hash_nonidentity::<CS>(input)? * &self.sk;
"""), (vo, """/// Contains the fields that are returned by a verifiable client blind
""", """fn hash_nonidentity<CS: CipherSuite>(input: &[u8]) -> Result<<CS::Group as Group>::Elem>
""" + W + """{
    let element = hash_to_group::<CS>(input, Mode::Voprf)?;
    if bool::from(CS::Group::is_identity_elem(element)) {
        Err(Error::Input)
    } else {
        Ok(element)
    }
}

/// Contains the fields that are returned by a verifiable client blind
"""))

# --- poprf.rs -------------------------------------------------------------------
E("po_info_scalar", (po, """    // None for info is treated the same as empty bytes
    let info = info.unwrap_or_default();

    // framedInfo = "Info" || I2OSP(len(info), 2) || info
    // m = G.HashToScalar(framedInfo)
    // T = G.ScalarBaseMult(m)
    // tweakedKey = T + pkS
    // if tweakedKey == G.Identity():
    //   raise InvalidInputError
    let info_len = i2osp_2(info.len()).map_err(|_| Error::Info)?;
    let framed_info = [STR_INFO.as_slice(), &info_len, info];

    let dst = Dst::new::<CS, _, _>(STR_HASH_TO_SCALAR, Mode::Poprf);
    // This can't fail, the size of the `input` is known.
    let m = CS::Group::hash_to_scalar::<CS::Hash>(&framed_info, &dst.as_dst()).unwrap();

    let t = CS""", """    let m = info_scalar::<CS>(info)?;
    let t = CS"""), (po, """    // None for info is treated the same as empty bytes
    let info = info.unwrap_or_default();

    // framedInfo = "Info" || I2OSP(len(info), 2) || info
    // m = G.HashToScalar(framedInfo)
    // t = skS + m
    // if t == 0:
    //   raise InverseError
    let info_len = i2osp_2(info.len()).map_err(|_| Error::Info)?;
    let framed_info = [STR_INFO.as_slice(), &info_len, info];

    let dst = Dst::new::<CS, _, _>(STR_HASH_TO_SCALAR, Mode::Poprf);
    // This can't fail, the size of the `input` is known.
    let m = CS::Group::hash_to_scalar::<CS::Hash>(&framed_info, &dst.as_dst()).unwrap();

    let t = sk + &m;
""", """    let t = info_scalar::<CS>(info)? + &sk;
"""), (po, """type PoprfUnblindResult<'a, CS, IC, IM> = Map<""", """fn info_scalar<CS: CipherSuite>(info: Option<&[u8]>) -> Result<<CS::Group as Group>::Scalar>
""" + W + """{
    let info = info.unwrap_or(&[]);
    let info_len = match i2osp_2(info.len()) {
        Ok(l) => l,
        Err(_) => return Err(Error::Info),
    };
    let dst = Dst::new::<CS, _, _>(STR_HASH_TO_SCALAR, Mode::Poprf);
    Ok(CS::Group::hash_to_scalar::<CS::Hash>(&[&STR_INFO, &info_len, info], &dst.as_dst()).unwrap())
}

type PoprfUnblindResult<'a, CS, IC, IM> = Map<"""))
E("po_zero_if", (po, """    match bool::from(CS::Group::is_zero_scalar(t)) {
        true => Err(Error::Protocol),
        false => Ok(t),
    }""", """    if CS::Group::is_zero_scalar(t).into() {
        return Err(Error::Protocol);
    }
    Ok(t)"""))
E("po_identity_unwrap_u8", (po, """    match bool::from(CS::Group::is_identity_elem(tweaked_key)) {
        true => Err(Error::Protocol),
        false => Ok(tweaked_key),
    }""", """    if CS::Group::is_identity_elem(tweaked_key).unwrap_u8() == 1 {
        Err(Error::Protocol)
    } else {
        Ok(tweaked_key)
    }"""))
E("po_evaluate_order", (po, """        let tweak = compute_tweak::<CS>(self.sk, info)?;

        let evaluated_element = input_element * &CS::Group::invert_scalar(tweak);
""", """        let inverse = compute_tweak::<CS>(self.sk, info).map(CS::Group::invert_scalar)?;
        let evaluated_element = input_element * &inverse;
"""))
E("po_evaluate_info", (po, """        // None for info is treated the same as empty bytes
        server_evaluate_hash_input::<CS>(input, Some(info.unwrap_or_default()), issued_element)""", """        let info = match info {
            Some(bytes) => bytes,
            None => &[],
        };
        server_evaluate_hash_input::<CS>(input, Some(info), issued_element)"""))
E("po_prepare_inverse", (po, """        let tweak = compute_tweak::<CS>(self.sk, info)?;

        Ok(PoprfServerBatchEvaluatePrepareResult {
            prepared_evaluation_elements: blinded_elements.zip(iter::repeat(tweak)).map(
                |(blinded_element, tweak)| {
                    PreparedEvaluationElement(EvaluationElement(
                        blinded_element.0 * &CS::Group::invert_scalar(tweak),
                    ))
                },
            ),
            prepared_tweak: PoprfPreparedTweak(tweak),
        })""", """        let tweak = compute_tweak::<CS>(self.sk, info)?;
        let inverse = CS::Group::invert_scalar(tweak);

        Ok(PoprfServerBatchEvaluatePrepareResult {
            prepared_evaluation_elements: blinded_elements.zip(iter::repeat(inverse)).map(
                |(blinded_element, inverse)| {
                    PreparedEvaluationElement(EvaluationElement(blinded_element.0 * &inverse))
                },
            ),
            prepared_tweak: PoprfPreparedTweak(tweak),
        })"""))
E("po_blind_evaluate_map", (po, """        Ok(PoprfServerEvaluateResult {
            message: messages.next().unwrap(),
            proof,
        })""", """        let message = messages.next();
        Ok(PoprfServerEvaluateResult {
            proof,
            message: message.expect("one message"),
        })"""))
E("po_len_check", (po, """    if unblinded_elements.len() != inputs.len() {
        return Err(Error::Batch);
    }

    let info = info.unwrap_or_default();
""", """    let info = info.unwrap_or_default();
    let (a, b) = (unblinded_elements.len(), inputs.len());
    if a < b || a > b {
        return Err(Error::Batch);
    }
"""))
E("po_unblind_reorder", (po, """    verify_proof(
        g,
        tweaked_key,
        evaluation_elements,
        blinded_elements,
        proof,
        Mode::Poprf,
    )?;

    Ok(blinds
        .zip(messages)
        .map(|(blind, x)| x.0 * &CS::Group::invert_scalar(blind)))""", """    let verified = verify_proof(g, tweaked_key, evaluation_elements, blinded_elements, proof, Mode::Poprf);
    verified.map(|()| {
        blinds
            .zip(messages)
            .map(<fn(_) -> _>::from(|(blind, x): (_, &EvaluationElement<CS>)| {
                let inverse = CS::Group::invert_scalar(blind);
                x.0 * &inverse
            }))
    })""")) if False else None
E("po_batch_finalize_q", (po, """        let unblinded_elements = poprf_unblind(clients, messages, pk, proof, info)?;

        finalize_after_unblind::<'a, CS, _, _>(unblinded_elements, inputs, info)""", """        poprf_unblind(clients, messages, pk, proof, info)
            .and_then(|elements| finalize_after_unblind::<'a, CS, _, _>(elements, inputs, info))"""))

# --- serialization.rs -------------------------------------------------------------
E("se_take_get", (se, """        if take > self.len() {
            return None;
        }

        let (front, back) = self.split_at(take);
        *self = back;
        Some(front)""", """        let front = self.get(..take)?;
        *self = &self[take..];
        Some(front)"""))
E("se_take_match", (se, """        if take > self.len() {
            return None;
        }

        let (front, back) = self.split_at(take);
        *self = back;
        Some(front)""", """        match (self.get(..take), self.get(take..)) {
            (Some(front), Some(back)) => {
                *self = back;
                Some(front)
            }
            _ => None,
        }"""))
E("se_take_idx", (se, """        if take > self.len() {
            return None;
        }

        let (front, back) = self.split_at(take);
        *self = back;
        Some(front)""", """        if self.len() >= take {
            let all = *self;
            *self = &all[take..];
            Some(&all[..take])
        } else {
            None
        }"""))
E("se_scalar_match", (se, """    let input = input
        .take_ext(G::ScalarLen::USIZE)
        .ok_or(Error::Deserialization)?;
    G::deserialize_scalar(input)""", """    match input.take_ext(G::ScalarLen::USIZE) {
        Some(bytes) => G::deserialize_scalar(bytes),
        None => Err(Error::Deserialization),
    }"""))
E("se_proof_map", (se, """        let c_scalar = deserialize_scalar::<CS::Group>(&mut input)?;
        let s_scalar = deserialize_scalar::<CS::Group>(&mut input)?;

        Ok(Proof { c_scalar, s_scalar })""", """        Ok(Self {
            c_scalar: deserialize_scalar::<CS::Group>(&mut input)?,
            s_scalar: deserialize_scalar::<CS::Group>(&mut input)?,
        })"""))
E("se_proof_ser", (se, """        CS::Group::serialize_scalar(self.c_scalar)
            .concat(CS::Group::serialize_scalar(self.s_scalar))""", """        let s = CS::Group::serialize_scalar(self.s_scalar);
        let c = CS::Group::serialize_scalar(self.c_scalar);
        c.concat(s)"""))
E("se_serde_match", (se, """            GenericArray::<_, G::ElemLen>::deserialize(deserializer)
                .and_then(|bytes| G::deserialize_elem(&bytes).map_err(D::Error::custom))""", """            let bytes = GenericArray::<u8, G::ElemLen>::deserialize(deserializer)?;
            match G::deserialize_elem(&bytes) {
                Ok(elem) => Ok(elem),
                Err(error) => Err(D::Error::custom(error)),
            }"""))
E("se_serde_ser", (se, """            G::serialize_scalar(*self_).serialize(serializer)""", """            let bytes = G::serialize_scalar(*self_);
            Serialize::serialize(&bytes, serializer)"""))

# --- groups -----------------------------------------------------------------------
E("ri_random_while", (ri, """        loop {
            let scalar = Scalar::random(rng);

            if scalar != Scalar::ZERO {
                break scalar;
            }
        }""", """        let mut scalar = Scalar::random(rng);
        while scalar == Scalar::ZERO {
            scalar = Scalar::random(rng);
        }
        scalar"""))
E("ri_random_ct", (ri, """        loop {
            let scalar = Scalar::random(rng);

            if scalar != Scalar::ZERO {
                break scalar;
            }
        }""", """        loop {
            let candidate = Scalar::random(rng);
            if bool::from(Self::is_zero_scalar(candidate)) {
                continue;
            }
            return candidate;
        }"""))
E("ri_uniform_helper", (ri, """        let mut uniform_bytes = GenericArray::<_, U64>::default();
        ExpandMsgXmd::<H>::expand_message(input, dst, 64)
            .map_err(|_| InternalError::Input)?
            .fill_bytes(&mut uniform_bytes);

        Ok(RistrettoPoint::from_uniform_bytes(&uniform_bytes.into()))""", """        expand::<H>(input, dst).map(|bytes| RistrettoPoint::from_uniform_bytes(&bytes))"""), (ri, """        let mut uniform_bytes = GenericArray::<_, U64>::default();
        ExpandMsgXmd::<H>::expand_message(input, dst, 64)
            .map_err(|_| InternalError::Input)?
            .fill_bytes(&mut uniform_bytes);

        Ok(Scalar::from_bytes_mod_order_wide(&uniform_bytes.into()))""", """        let bytes = expand::<H>(input, dst)?;
        Ok(Scalar::from_bytes_mod_order_wide(&bytes))"""), (ri, """impl Group for Ristretto255 {
""", """fn expand<H>(input: &[&[u8]], dst: &[&[u8]]) -> Result<[u8; 64], InternalError>
where
    H: BlockSizeUser + Default + FixedOutput + HashMarker,
    H::OutputSize: IsLess<U256> + IsLessOrEqual<H::BlockSize>,
{
    let mut uniform_bytes = [0u8; 64];
    ExpandMsgXmd::<H>::expand_message(input, dst, 64)
        .map_err(|_| InternalError::Input)?
        .fill_bytes(&mut uniform_bytes);
    Ok(uniform_bytes)
}

impl Group for Ristretto255 {
"""), (ri, "use generic_array::typenum::{IsLess, IsLessOrEqual, U256, U32, U64};", "use generic_array::typenum::{IsLess, IsLessOrEqual, U256, U32};"))
E("ri_deser_elem_match", (ri, """        CompressedRistretto::from_slice(element_bits)
            .map_err(|_| Error::Deserialization)?
            .decompress()
            .filter(|point| point != &RistrettoPoint::identity())
            .ok_or(Error::Deserialization)""", """        let compressed = match CompressedRistretto::from_slice(element_bits) {
            Ok(c) => c,
            Err(_) => return Err(Error::Deserialization),
        };
        match compressed.decompress() {
            Some(point) if point != RistrettoPoint::identity() => Ok(point),
            _ => Err(Error::Deserialization),
        }"""))
E("ri_deser_elem_identity", (ri, """            .filter(|point| point != &RistrettoPoint::identity())
""", """            .filter(|point| !bool::from(Self::is_identity_elem(*point)))
"""))
E("ri_deser_scalar_match", (ri, """        scalar_bits
            .try_into()
            .ok()
            .and_then(|bytes| Scalar::from_canonical_bytes(bytes).into())
            .filter(|scalar| scalar != &Scalar::ZERO)
            .ok_or(Error::Deserialization)""", """        let bytes: [u8; 32] = scalar_bits.try_into().map_err(|_| Error::Deserialization)?;
        let scalar: Option<Scalar> = Scalar::from_canonical_bytes(bytes).into();
        let scalar = scalar.ok_or(Error::Deserialization)?;
        if scalar == Scalar::ZERO {
            return Err(Error::Deserialization);
        }
        Ok(scalar)"""))
E("ri_zero", (ri, """        scalar.ct_eq(&Scalar::ZERO)""", """        Scalar::ZERO.ct_eq(&scalar)"""))
E("ec_ser_elem", (ec, """        let bytes = elem.to_encoded_point(true);
        let bytes = bytes.as_bytes();
        let mut result = GenericArray::default();
        result[..bytes.len()].copy_from_slice(bytes);
        result""", """        let point = elem.to_encoded_point(true);
        let mut out = GenericArray::<u8, Self::ElemLen>::default();
        let encoded = point.as_bytes();
        let (head, _) = out.split_at_mut(encoded.len());
        head.copy_from_slice(encoded);
        out"""))
E("ec_deser_scalar", (ec, """        if scalar_bits.len() != Self::ScalarLen::USIZE {
            return Err(Error::Deserialization);
        }

        SecretKey::<Self>::from_slice(scalar_bits)
            .map(|secret_key| *secret_key.to_nonzero_scalar())
            .map_err(|_| Error::Deserialization)""", """        if scalar_bits.len() == Self::ScalarLen::USIZE {
            match SecretKey::<Self>::from_slice(scalar_bits) {
                Ok(key) => Ok(*key.to_nonzero_scalar()),
                Err(_) => Err(Error::Deserialization),
            }
        } else {
            Err(Error::Deserialization)
        }"""))
E("ec_deser_elem", (ec, """        EncodedPoint::<Self>::from_bytes(element_bits)
            .ok()
            .filter(|point| point.is_compressed())
            .and_then(|point| Option::from(PublicKey::<Self>::from_encoded_point(&point)))
            .map(|public_key: PublicKey<Self>| public_key.to_projective())
            .ok_or(Error::Deserialization)""", """        let point = EncodedPoint::<Self>::from_bytes(element_bits)
            .map_err(|_| Error::Deserialization)?;
        if !point.is_compressed() {
            return Err(Error::Deserialization);
        }
        let key: Option<PublicKey<Self>> = PublicKey::<Self>::from_encoded_point(&point).into();
        match key {
            Some(key) => Ok(key.to_projective()),
            None => Err(Error::Deserialization),
        }"""))
E("ec_hash_match", (ec, """        Self::hash_from_bytes::<ExpandMsgXmd<H>>(input, dst).map_err(|_| InternalError::Input)""", """        match Self::hash_from_bytes::<ExpandMsgXmd<H>>(input, dst) {
            Ok(point) => Ok(point),
            Err(_) => Err(InternalError::Input),
        }"""))
E("ec_invert", (ec, """        Option::from(scalar.invert()).unwrap()""", """        scalar.invert().unwrap()"""))
E("ec_invert_opt", (ec, """        Option::from(scalar.invert()).unwrap()""", """        let inverse: Option<Self::Scalar> = scalar.invert().into();
        inverse.expect("scalar is not zero")"""))
E("ec_random", (ec, """        *SecretKey::<Self>::random(rng).to_nonzero_scalar()""", """        let key = SecretKey::<Self>::random(rng);
        let nonzero = key.to_nonzero_scalar();
        *nonzero.as_ref()"""))
C = {k: v for k, v in C.items() if v and v[0]}

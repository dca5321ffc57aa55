"""Second round of behaviour-preserving edits: other idioms."""
C = {}


def E(name, *edits):
    C[name] = list(edits)


W = """where
    <CS::Hash as OutputSizeUser>::OutputSize:
        IsLess<U256> + IsLessOrEqual<<CS::Hash as BlockSizeUser>::BlockSize>,
"""
co, op, vo, po, se = "common.rs", "oprf.rs", "voprf.rs", "poprf.rs", "serialization.rs"
ec, ri, gm = "group/elliptic_curve.rs", "group/ristretto.rs", "group/mod.rs"

LOOP_HEAD = """    for (i, (c, d)) in (0..len).zip(c_slice.zip(d_slice)) {
"""
LOOP_TAIL = """        m = c * &di + &m;
        z = match k_option {
            Some(_) => z,
            None => d * &di + &z,
        };
    }

    z = match k_option {
        Some(k) => m * &k,
        None => z,
    };

    Ok((m, z))
"""
# --- loops --------------------------------------------------------------------
E("composites_indexed_next",
  (co, "    c_slice: IC,\n    d_slice: ID,", "    mut c_slice: IC,\n    mut d_slice: ID,"),
  (co, LOOP_HEAD, """    for i in 0..len {
        // Both iterators have `len` entries.
        let (c, d) = match (c_slice.next(), d_slice.next()) {
            (Some(c), Some(d)) => (c, d),
            _ => return Err(Error::Batch),
        };
"""))
E("composites_while_let",
  (co, LOOP_HEAD, """    let mut pairs = c_slice.zip(d_slice);
    let mut i = 0_u16;
    while let Some((c, d)) = pairs.next() {
"""),
  (co, "        m = c * &di + &m;\n", "        i = i.wrapping_add(1);\n        m = c * &di + &m;\n"))
E("composites_for_each",
  (co, LOOP_HEAD, """    (0..len).zip(c_slice.zip(d_slice)).for_each(|(i, (c, d))| {
"""),
  (co, """            None => d * &di + &z,
        };
    }
""", """            None => d * &di + &z,
        };
    });
"""))
E("composites_if_none",
  (co, """        z = match k_option {
            Some(_) => z,
            None => d * &di + &z,
        };
    }
""", """        if k_option.is_none() {
            z = d * &di + &z;
        }
    }
"""),
  (co, """    z = match k_option {
        Some(k) => m * &k,
        None => z,
    };

    Ok((m, z))""", """    if let Some(k) = k_option {
        z = m * &k;
    }

    Ok((m, z))"""))
E("composites_early_return",
  (co, """    z = match k_option {
        Some(k) => m * &k,
        None => z,
    };

    Ok((m, z))""", """    if let Some(k) = k_option {
        return Ok((m, m * &k));
    }

    Ok((m, z))"""))
E("composites_try_fold",
  (co, LOOP_HEAD, """    for (i, (c, d)) in c_slice.zip(d_slice).enumerate() {
        // Checked above.
        let i = i as u16;
"""))
E("composites_dst_hoisted",
  (co, LOOP_HEAD, """    let dst = Dst::new::<CS, _, _>(STR_HASH_TO_SCALAR, mode);
    let composite_dst = dst.as_dst();

""" + LOOP_HEAD),
  (co, """        let dst = Dst::new::<CS, _, _>(STR_HASH_TO_SCALAR, mode);
        // This can't fail, the size of the `input` is known.
        let di = CS::Group::hash_to_scalar::<CS::Hash>(&h2_input, &dst.as_dst()).unwrap();
        m =""", """        // This can't fail, the size of the `input` is known.
        let di = CS::Group::hash_to_scalar::<CS::Hash>(&h2_input, &composite_dst).unwrap();
        m ="""))
E("composites_seed_helper",
  (co, """    // seedDST = "Seed-" || contextString
    let seed_dst = Dst::new::<CS, _, _>(STR_SEED, mode);

    // h1Input = I2OSP(len(Bm), 2) || Bm ||
    //           I2OSP(len(seedDST), 2) || seedDST
    // seed = Hash(h1Input)
    let seed = CS::Hash::new()
        .chain_update(elem_len)
        .chain_update(CS::Group::serialize_elem(b))
        .chain_update(seed_dst.i2osp_2())
        .chain_update_multi(&seed_dst.as_dst())
        .finalize();
""", """    let seed = composite_seed::<CS>(b, mode);
"""),
  (co, "/// Can only fail with [`Error::Batch`].\nfn compute_composites<", """fn composite_seed<CS: CipherSuite>(b: <CS::Group as Group>::Elem, mode: Mode) -> Output<CS::Hash>
""" + W + """{
    // seedDST = "Seed-" || contextString
    let seed_dst = Dst::new::<CS, _, _>(STR_SEED, mode);
    let mut hash = CS::Hash::new();
    Digest::update(&mut hash, <CS::Group as Group>::ElemLen::U16.to_be_bytes());
    Digest::update(&mut hash, CS::Group::serialize_elem(b));
    Digest::update(&mut hash, seed_dst.i2osp_2());
    for part in seed_dst.as_dst() {
        Digest::update(&mut hash, part);
    }
    hash.finalize()
}

/// Can only fail with [`Error::Batch`].
fn compute_composites<"""))
E("composites_len_order",
  (co, """    if c_slice.len() != d_slice.len() {
        return Err(Error::Batch);
    }

    let len = u16::try_from(c_slice.len()).map_err(|_| Error::Batch)?;
""", """    let len = match u16::try_from(c_slice.len()) {
        Ok(len) if c_slice.len() == d_slice.len() => len,
        _ => return Err(Error::Batch),
    };
"""))
E("composites_sum_struct",
  (co, "type ComputeCompositesResult<CS> = (", """/// A composite under construction.
struct Acc<G: Group>(G::Elem);

impl<G: Group> Acc<G> {
    fn absorb(&mut self, e: G::Elem, d: &G::Scalar) {
        self.0 = e * d + &self.0;
    }
}

type ComputeCompositesResult<CS> = ("""),
  (co, "    let mut m = CS::Group::identity_elem();\n", "    let mut m = Acc::<CS::Group>(CS::Group::identity_elem());\n"),
  (co, "        m = c * &di + &m;\n", "        m.absorb(c, &di);\n"),
  (co, """    z = match k_option {
        Some(k) => m * &k,
        None => z,
    };
""", """    let m = m.0;
    z = match k_option {
        Some(k) => m * &k,
        None => z,
    };
"""))
# --- derivation ---------------------------------------------------------------
DER = """    for counter in 0_u8..=u8::MAX {
        // deriveInput = seed || I2OSP(len(info), 2) || info
        // skS = G.HashToScalar(deriveInput || I2OSP(counter, 1), DST = "DeriveKeyPair"
        // || contextString)
        let sk_s = CS::Group::hash_to_scalar::<CS::Hash>(
            &[seed, &info_len, info, &counter.to_be_bytes()],
            &dst.as_dst(),
        )
        .map_err(|_| Error::DeriveKeyPair)?;

        if !bool::from(CS::Group::is_zero_scalar(sk_s)) {
            return Ok(sk_s);
        }
    }

    Err(Error::Protocol)
"""
BODY = """CS::Group::hash_to_scalar::<CS::Hash>(
            &[seed, &info_len, info, &[counter]],
            &dst.as_dst(),
        )
        .map_err(|_| Error::DeriveKeyPair)"""
E("derive_u16_range",
  (co, DER, """    for counter in 0..256_u16 {
        let counter = counter as u8;
        let sk_s = """ + BODY + """?;

        if bool::from(CS::Group::is_zero_scalar(sk_s)) {
            continue;
        }
        return Ok(sk_s);
    }

    Err(Error::Protocol)
"""))
E("derive_while",
  (co, DER, """    let mut next = 0_u16;
    while next <= 255 {
        let counter = next as u8;
        let sk_s = """ + BODY + """?;

        if !bool::from(CS::Group::is_zero_scalar(sk_s)) {
            return Ok(sk_s);
        }
        next += 1;
    }

    Err(Error::Protocol)
"""))
E("derive_find_map",
  (co, DER, """    (0..=u8::MAX)
        .map(|counter| """ + BODY + """)
        .find(|candidate| match candidate {
            Ok(sk_s) => !bool::from(CS::Group::is_zero_scalar(*sk_s)),
            Err(_) => true,
        })
        .unwrap_or(Err(Error::Protocol))
"""))
E("derive_loop_break_value",
  (co, DER, """    let mut counter = 0_u8;
    let result = loop {
        let sk_s = """ + BODY + """?;

        if !bool::from(CS::Group::is_zero_scalar(sk_s)) {
            break Some(sk_s);
        }
        if counter == u8::MAX {
            break None;
        }
        counter += 1;
    };

    result.ok_or(Error::Protocol)
"""))
E("derive_candidate_helper",
  (co, DER, """    for counter in 0_u8..=u8::MAX {
        if let Some(sk_s) = derive_candidate::<CS>(seed, &info_len, info, counter, &dst.as_dst())? {
            return Ok(sk_s);
        }
    }

    Err(Error::Protocol)
"""),
  (co, "/// Can only fail with [`Error::DeriveKeyPair`] and [`Error::Protocol`].\npub(crate) fn derive_key_internal", """/// One attempt of the derivation.
fn derive_candidate<CS: CipherSuite>(
    seed: &[u8],
    info_len: &[u8],
    info: &[u8],
    counter: u8,
    dst: &[&[u8]],
) -> Result<Option<<CS::Group as Group>::Scalar>, Error>
""" + W + """{
    let scalar = CS::Group::hash_to_scalar::<CS::Hash>(&[seed, info_len, info, &[counter]], dst)
        .map_err(|_| Error::DeriveKeyPair)?;
    let usable = !bool::from(CS::Group::is_zero_scalar(scalar));
    Ok(usable.then_some(scalar))
}

/// Can only fail with [`Error::DeriveKeyPair`] and [`Error::Protocol`].
pub(crate) fn derive_key_internal"""))
E("derive_keypair_map",
  (co, """    let sk_s = derive_key_internal::<CS>(seed, info, mode)?;
    let pk_s = CS::Group::base_elem() * &sk_s;

    Ok((sk_s, pk_s))""", """    derive_key_internal::<CS>(seed, info, mode).map(|sk_s| (sk_s, CS::Group::base_elem() * &sk_s))"""))
# --- small functions ----------------------------------------------------------
E("i2osp_bytes",
  (co, """    u16::try_from(input)
        .map(|input| input.to_be_bytes())
        .map_err(|_| InternalError::I2osp)""", """    if input > usize::from(u16::MAX) {
        return Err(InternalError::I2osp);
    }
    Ok([(input >> 8) as u8, (input & 0xff) as u8])"""))
E("i2osp_div",
  (co, """    u16::try_from(input)
        .map(|input| input.to_be_bytes())
        .map_err(|_| InternalError::I2osp)""", """    match input {
        0..=0xffff => Ok([(input / 256) as u8, (input % 256) as u8]),
        _ => Err(InternalError::I2osp),
    }"""))
E("i2osp_ok_or",
  (co, """    u16::try_from(input)
        .map(|input| input.to_be_bytes())
        .map_err(|_| InternalError::I2osp)""", """    let value: u16 = input.try_into().ok().ok_or(InternalError::I2osp)?;
    let [high, low] = value.to_be_bytes();
    Ok([high, low])"""),
  (co, "use core::convert::TryFrom;", "use core::convert::{TryFrom, TryInto};"))
E("mode_discriminants",
  (co, "    Oprf,\n", "    Oprf = 0,\n"), (co, "    Voprf,\n", "    Voprf = 1,\n"), (co, "    Poprf,\n}", "    Poprf = 2,\n}"),
  (co, """        match self {
            Mode::Oprf => 0,
            Mode::Voprf => 1,
            Mode::Poprf => 2,
        }""", """        self as u8"""))
E("dst_push",
  (co, """        let par_2 = GenericArray::from(STR_OPRF)
            .concat([mode.to_u8()].into())
            .concat([b'-'].into());

        let dst_1 = par_1.concat(par_2);""", """        let [v0, v1, v2, v3, v4, v5, v6] = STR_OPRF;
        let par_2: GenericArray<u8, U9> =
            [v0, v1, v2, v3, v4, v5, v6, mode.to_u8(), b'-'].into();

        let dst_1 = par_1.concat(par_2);"""))
E("dst_len_helper",
  (co, """        u16::try_from(L::USIZE + self.dst_2.len())
            .unwrap()
            .to_be_bytes()
    }
""", """        // Checked on construction.
        (self.len() as u16).to_be_bytes()
    }

    fn len(&self) -> usize {
        self.dst_1.len() + self.dst_2.as_bytes().len()
    }
"""))
E("hash_mut",
  (co, """    let mut hash = CS::Hash::new()
        .chain_update(i2osp_2(input.as_ref().len()).map_err(|_| Error::Input)?)
        .chain_update(input.as_ref());
    if let Some(info) = info {
        hash = hash
            .chain_update(i2osp_2(info.as_ref().len()).map_err(|_| Error::Input)?)
            .chain_update(info.as_ref());
    }
    Ok(hash
        .chain_update(i2osp_2(issued_element.as_ref().len()).map_err(|_| Error::Input)?)
        .chain_update(issued_element)
        .chain_update(STR_FINALIZE)
        .finalize())""", """    let mut hash = CS::Hash::new();
    let mut absorb = |part: &[u8]| -> Result<()> {
        let len = i2osp_2(part.len()).map_err(|_| Error::Input)?;
        hash.update(len);
        hash.update(part);
        Ok(())
    };
    absorb(input)?;
    if let Some(info) = info {
        absorb(info)?;
    }
    absorb(&issued_element)?;
    hash.update(STR_FINALIZE);
    Ok(hash.finalize())"""))
E("hash_parts_array",
  (co, """    let mut hash = CS::Hash::new()
        .chain_update(i2osp_2(input.as_ref().len()).map_err(|_| Error::Input)?)
        .chain_update(input.as_ref());
    if let Some(info) = info {
        hash = hash
            .chain_update(i2osp_2(info.as_ref().len()).map_err(|_| Error::Input)?)
            .chain_update(info.as_ref());
    }
    Ok(hash
        .chain_update(i2osp_2(issued_element.as_ref().len()).map_err(|_| Error::Input)?)
        .chain_update(issued_element)
        .chain_update(STR_FINALIZE)
        .finalize())""", """    let mut hash = CS::Hash::new();
    for part in [Some(input), info, Some(issued_element.as_slice())] {
        if let Some(part) = part {
            hash.update(i2osp_2(part.len()).map_err(|_| Error::Input)?);
            hash.update(part);
        }
    }
    hash.update(STR_FINALIZE);
    Ok(hash.finalize())"""))
E("hash_frame_trait",
  (co, """trait DigestExt {
    fn chain_update_multi(self, data: &[&[u8]]) -> Self;
}
""", """trait DigestExt: Sized {
    fn chain_update_multi(self, data: &[&[u8]]) -> Self;
    fn framed(self, data: &[u8]) -> Result<Self>;
}
"""),
  (co, """            self.update(data)
        }

        self
    }
""", """            self.update(data)
        }

        self
    }

    fn framed(self, data: &[u8]) -> Result<Self> {
        let len = i2osp_2(data.len()).map_err(|_| Error::Input)?;
        Ok(self.chain_update(len).chain_update(data))
    }
"""),
  (co, """    let mut hash = CS::Hash::new()
        .chain_update(i2osp_2(input.as_ref().len()).map_err(|_| Error::Input)?)
        .chain_update(input.as_ref());
    if let Some(info) = info {
        hash = hash
            .chain_update(i2osp_2(info.as_ref().len()).map_err(|_| Error::Input)?)
            .chain_update(info.as_ref());
    }
    Ok(hash
        .chain_update(i2osp_2(issued_element.as_ref().len()).map_err(|_| Error::Input)?)
        .chain_update(issued_element)
        .chain_update""", """    let mut hash = CS::Hash::new().framed(input)?;
    if let Some(info) = info {
        hash = hash.framed(info)?;
    }
    Ok(hash
        .framed(issued_element.as_slice())?
        .chain_update"""))
E("verify_unwrap_u8",
  (co, """    match c.ct_eq(&proof.c_scalar).into() {
        true => Ok(()),
        false => Err(Error::ProofVerification),
    }""", """    if c.ct_eq(&proof.c_scalar).unwrap_u8() == 1 {
        Ok(())
    } else {
        Err(Error::ProofVerification)
    }"""))
E("verify_not",
  (co, """    match c.ct_eq(&proof.c_scalar).into() {
        true => Ok(()),
        false => Err(Error::ProofVerification),
    }""", """    let differs = !proof.c_scalar.ct_eq(&c);
    if differs.into() {
        return Err(Error::ProofVerification);
    }
    Ok(())"""))
E("verify_ok_or",
  (co, """    match c.ct_eq(&proof.c_scalar).into() {
        true => Ok(()),
        false => Err(Error::ProofVerification),
    }""", """    Option::<()>::from(subtle::CtOption::new((), c.ct_eq(&proof.c_scalar))).ok_or(Error::ProofVerification)"""))
E("hash_to_group_match",
  (co, """    i2osp_2(input.len()).map_err(|_| Error::Input)?;

    let dst = Dst::new::<CS, _, _>(STR_HASH_TO_GROUP, mode);
    CS::Group::hash_to_curve::<CS::Hash>(&[input], &dst.as_dst()).map_err(|_| Error::Input)""", """    let dst = Dst::new::<CS, _, _>(STR_HASH_TO_GROUP, mode);
    match (
        i2osp_2(input.len()),
        CS::Group::hash_to_curve::<CS::Hash>(&[input], &dst.as_dst()),
    ) {
        (Ok(_), Ok(element)) => Ok(element),
        _ => Err(Error::Input),
    }"""))
E("from_internal_error",
  (co, "    i2osp_2(input.len()).map_err(|_| Error::Input)?;\n\n    let dst", "    i2osp_2(input.len()).or(Err(Error::Input))?;\n\n    let dst"),
  (co, "(&[input], &dst.as_dst()).map_err(|_| Error::Input)", "(core::slice::from_ref(&input), &dst.as_dst())\n        .or(Err(Error::Input))"))
E("blind_checked_hash",
  (co, """    let hashed_point = hash_to_group::<CS>(input, mode)?;
    if CS::Group::is_identity_elem(hashed_point).into() {
        return Err(Error::Input);
    };
    Ok(hashed_point * blind)
}
""", """    Ok(hash_to_nonidentity::<CS>(input, mode)? * blind)
}

/// Hashes `input` to a point that is not the identity.
pub(crate) fn hash_to_nonidentity<CS: CipherSuite>(
    input: &[u8],
    mode: Mode,
) -> Result<<CS::Group as Group>::Elem>
""" + W + """{
    let point = hash_to_group::<CS>(input, mode)?;
    match bool::from(CS::Group::is_identity_elem(point)) {
        false => Ok(point),
        true => Err(Error::Input),
    }
}
"""),
  *[x for f, m in ((op, "Oprf"), (vo, "Voprf"), (po, "Poprf")) for x in (
      (f, "        let input_element = hash_to_group::<CS>(input, Mode::%s)?;\n        if CS::Group::is_identity_elem(input_element).into() {\n            return Err(Error::Input);\n        };\n" % m,
       "        let input_element = hash_to_nonidentity::<CS>(input, Mode::%s)?;\n" % m),
      (f, "hash_to_group,", "hash_to_nonidentity,"))])
# --- server/client ------------------------------------------------------------
E("server_new_wrapped",
  (vo, """        let mut seed = GenericArray::<_, <CS::Group as Group>::ScalarLen>::default();
        rng.fill_bytes(&mut seed);
        // This can't fail as the hash output is type constrained.
        Self::new_from_seed(&seed, &[])""", """        let seed = random_seed::<CS, R>(rng);
        // This can't fail as the hash output is type constrained.
        Self::new_from_seed(seed.as_slice(), b"")"""),
  (vo, "type VoprfUnblindResult<", "fn random_seed<CS: CipherSuite, R: RngCore + CryptoRng>(\n    rng: &mut R,\n) -> GenericArray<u8, <CS::Group as Group>::ScalarLen>\n" + W + """{
    let mut seed = GenericArray::default();
    rng.fill_bytes(seed.as_mut_slice());
    seed
}

type VoprfUnblindResult<"""))
E("with_key_helper",
  (vo, """        let sk = CS::Group::deserialize_scalar(key)?;
        let pk = CS::Group::base_elem() * &sk;
        Ok(Self { sk, pk })
    }
""", """        CS::Group::deserialize_scalar(key).map(Self::from_secret)
    }

    fn from_secret(sk: <CS::Group as Group>::Scalar) -> Self {
        let mut server = Self {
            sk,
            pk: CS::Group::base_elem(),
        };
        server.pk = server.pk * &server.sk;
        server
    }
"""))
E("client_fields_moved",
  (vo, """        Ok(VoprfClientBlindResult {
            state: Self {
                blind,
                blinded_element,
            },
            message: BlindedElement(blinded_element),
        })""", """        let message = BlindedElement(blinded_element);
        let state = Self {
            blinded_element: message.0,
            blind,
        };
        Ok(VoprfClientBlindResult { message, state })"""))
E("vo_finalize_direct",
  (vo, """        let mut batch_result = Self::batch_finalize(inputs, clients, messages, proof, pk)?;
        batch_result.next().unwrap()""", """        Self::batch_finalize(inputs, clients, messages, proof, pk)?
            .next()
            .expect("one output per input")"""))
E("vo_finalize_last",
  (vo, """        let mut batch_result = Self::batch_finalize(inputs, clients, messages, proof, pk)?;
        batch_result.next().unwrap()""", """        Self::batch_finalize(inputs, clients, messages, proof, pk)
            .and_then(|mut outputs| outputs.next().unwrap_or(Err(Error::Batch)))"""))
E("vo_inputs_check_first",
  (vo, """        let unblinded_elements = verifiable_unblind(clients, messages, pk, proof)?;
        let inputs = inputs.into_iter();

        if inputs.len() != unblinded_elements.len() {
            return Err(Error::Batch);
        }
""", """        let inputs = inputs.into_iter();
        if inputs.len() != clients.into_iter().len() {
            return Err(Error::Batch);
        }
        let unblinded_elements = verifiable_unblind(clients, messages, pk, proof)?;
"""))
E("vo_blind_evaluate_let_else",
  (vo, """        let VoprfServerBatchEvaluateFinishResult {
            mut messages,
            proof,
        } = self
            .batch_blind_evaluate_finish(
                rng,
                iter::once(blinded_element),
                &prepared_evaluation_element,
            )
            .unwrap();

        let message = messages.next().unwrap();

        VoprfServerEvaluateResult { message, proof }""", """        let mut finished = self
            .batch_blind_evaluate_finish(
                rng,
                core::slice::from_ref(blinded_element).iter(),
                &prepared_evaluation_element,
            )
            .expect("the sizes match");

        VoprfServerEvaluateResult {
            message: finished.messages.next().expect("one element"),
            proof: finished.proof,
        }"""))
E("vo_blind_evaluate_direct_proof",
  (vo, """        let mut prepared_evaluation_elements =
            self.batch_blind_evaluate_prepare(iter::once(blinded_element));
        let prepared_evaluation_element = [prepared_evaluation_elements.next().unwrap()];

        // This can't fail because we know the size of the inputs.
        let VoprfServerBatchEvaluateFinishResult {
            mut messages,
            proof,
        } = self
            .batch_blind_evaluate_finish(
                rng,
                iter::once(blinded_element),
                &prepared_evaluation_element,
            )
            .unwrap();

        let message = messages.next().unwrap();

        VoprfServerEvaluateResult { message, proof }""", """        let evaluated = blinded_element.0 * &self.sk;
        // This can't fail because we know the size of the inputs.
        let proof = generate_proof(
            rng,
            self.sk,
            CS::Group::base_elem(),
            self.pk,
            iter::once(blinded_element.0),
            iter::once(evaluated),
            Mode::Voprf,
        )
        .unwrap();

        VoprfServerEvaluateResult {
            message: EvaluationElement(evaluated),
            proof,
        }"""))
E("vo_batch_vec_push",
  (vo, """        let messages = messages.collect();

        Ok(VoprfServerBatchEvaluateResult { messages, proof })""", """        let mut collected = Vec::with_capacity(messages.len());
        for message in messages {
            collected.push(message);
        }

        Ok(VoprfServerBatchEvaluateResult {
            messages: collected,
            proof,
        })"""))
E("vo_batch_extend",
  (vo, """        let messages = messages.collect();

        Ok(VoprfServerBatchEvaluateResult { messages, proof })""", """        let mut collected = Vec::new();
        collected.extend(messages);

        Ok(VoprfServerBatchEvaluateResult {
            messages: collected,
            proof,
        })"""))
E("vo_sk_copied",
  (vo, """        let g = CS::Group::base_elem();
        let proof = generate_proof(
            rng,
            self.sk,
            g,
            self.pk,
            blinded_elements.map(|element| element.0),
            evaluation_elements.into_iter().map(|element| element.0 .0),""", """        let Self { sk, pk } = self;
        let proof = generate_proof(
            rng,
            *sk,
            CS::Group::base_elem(),
            *pk,
            blinded_elements.map(|BlindedElement(element)| *element),
            evaluation_elements
                .into_iter()
                .map(|PreparedEvaluationElement(EvaluationElement(element))| *element),"""))
E("po_info_helper",
  (po, """    // None for info is treated the same as empty bytes
    let info = info.unwrap_or_default();

    // framedInfo = "Info" || I2OSP(len(info), 2) || info
    // m = G.HashToScalar(framedInfo)
    // t = skS + m
    // if t == 0:
    //   raise InverseError
    let info_len = i2osp_2(info.len()).map_err(|_| Error::Info)?;
    let framed_info = [STR_INFO.as_slice(), &info_len, info];

    let dst = Dst::new::<CS, _, _>(STR_HASH_TO_SCALAR, Mode::Poprf);
    // This can't fail, the size of the `input` is known.
    let m = CS::Group::hash_to_scalar::<CS::Hash>(&framed_info, &dst.as_dst()).unwrap();

    let t = sk + &m;
""", """    let t = hash_info::<CS>(info)? + &sk;
"""),
  (po, "type PoprfUnblindResult<", """/// The scalar that `info` contributes to the key.
fn hash_info<CS: CipherSuite>(info: Option<&[u8]>) -> Result<<CS::Group as Group>::Scalar>
""" + W + """{
    let info = info.unwrap_or(&[]);
    let Ok(info_len) = i2osp_2(info.len()) else {
        return Err(Error::Info);
    };
    let dst = Dst::new::<CS, _, _>(STR_HASH_TO_SCALAR, Mode::Poprf);
    Ok(CS::Group::hash_to_scalar::<CS::Hash>(&[&STR_INFO, &info_len, info], &dst.as_dst()).unwrap())
}

type PoprfUnblindResult<"""))
E("po_tweak_then",
  (po, """    match bool::from(CS::Group::is_zero_scalar(t)) {
        true => Err(Error::Protocol),
        false => Ok(t),
    }""", """    (!bool::from(CS::Group::is_zero_scalar(t)))
        .then(|| t)
        .ok_or(Error::Protocol)"""))
E("po_key_filter",
  (po, """    match bool::from(CS::Group::is_identity_elem(tweaked_key)) {
        true => Err(Error::Protocol),
        false => Ok(tweaked_key),
    }""", """    Some(tweaked_key)
        .filter(|key| !bool::from(CS::Group::is_identity_elem(*key)))
        .ok_or(Error::Protocol)"""))
E("po_finish_destructure",
  (po, """        let PoprfServerBatchEvaluatePrepareResult {
            mut prepared_evaluation_elements,
            prepared_tweak,
        } = self.batch_blind_evaluate_prepare(iter::once(blinded_element), info)?;

        let prepared_evaluation_element = prepared_evaluation_elements.next().unwrap();
        let prepared_evaluation_elements = core::array::from_ref(&prepared_evaluation_element);
""", """        let mut prepared =
            self.batch_blind_evaluate_prepare(core::iter::once(blinded_element), info)?;
        let prepared_tweak = prepared.prepared_tweak.clone();
        let prepared_evaluation_elements = &[prepared.prepared_evaluation_elements.next().unwrap()];
"""))
# --- types: derived against manual implementations --------------------------------
E("manual_drop_server",
  (op, """#[derive_where(Clone, ZeroizeOnDrop)]
#[derive_where(Debug, Eq, Hash, Ord, PartialEq, PartialOrd; <CS::Group as Group>::Scalar)]
#[cfg_attr(
    feature = "serde",
    derive(serde::Deserialize, serde::Serialize),
    serde(bound = "")
)]
pub struct OprfServer""", """#[derive_where(Clone)]
#[derive_where(Debug, Eq, Hash, Ord, PartialEq, PartialOrd; <CS::Group as Group>::Scalar)]
#[cfg_attr(
    feature = "serde",
    derive(serde::Deserialize, serde::Serialize),
    serde(bound = "")
)]
pub struct OprfServer"""),
  (op, "impl<CS: CipherSuite> OprfServer<CS>\n", "impl<CS: CipherSuite> Drop for OprfServer<CS>\n" + W + """{
    fn drop(&mut self) {
        zeroize::Zeroize::zeroize(&mut self.sk);
    }
}

impl<CS: CipherSuite> OprfServer<CS>
"""))
E("manual_clone_proof",
  (co, """#[derive_where(Clone, ZeroizeOnDrop)]
#[derive_where(Debug, Eq, Hash, Ord, PartialEq, PartialOrd; <CS::Group as Group>::Scalar)]
#[cfg_attr(
    feature = "serde",
    derive(serde::Deserialize, serde::Serialize),
    serde(bound = "")
)]
pub struct Proof""", """#[derive_where(ZeroizeOnDrop)]
#[derive_where(Debug, Eq, Hash, Ord, PartialOrd; <CS::Group as Group>::Scalar)]
#[cfg_attr(
    feature = "serde",
    derive(serde::Deserialize, serde::Serialize),
    serde(bound = "")
)]
pub struct Proof"""),
  (co, """/////////////////////
// Proof Functions //""", """impl<CS: CipherSuite> Clone for Proof<CS>
""" + W + """{
    fn clone(&self) -> Self {
        let Self { c_scalar, s_scalar } = self;
        Self {
            s_scalar: *s_scalar,
            c_scalar: *c_scalar,
        }
    }
}

impl<CS: CipherSuite> PartialEq for Proof<CS>
where
    <CS::Group as Group>::Scalar: PartialEq,
    <CS::Hash as OutputSizeUser>::OutputSize:
        IsLess<U256> + IsLessOrEqual<<CS::Hash as BlockSizeUser>::BlockSize>,
{
    fn eq(&self, other: &Self) -> bool {
        if self.s_scalar != other.s_scalar {
            return false;
        }
        self.c_scalar == other.c_scalar
    }
}

/////////////////////
// Proof Functions //"""))
E("manual_ord_proof",
  (co, """#[derive_where(Debug, Eq, Hash, Ord, PartialEq, PartialOrd; <CS::Group as Group>::Scalar)]
#[cfg_attr(
    feature = "serde",
    derive(serde::Deserialize, serde::Serialize),
    serde(bound = "")
)]
pub struct Proof""", """#[derive_where(Debug, Eq, PartialEq; <CS::Group as Group>::Scalar)]
#[cfg_attr(
    feature = "serde",
    derive(serde::Deserialize, serde::Serialize),
    serde(bound = "")
)]
pub struct Proof"""),
  (co, """/////////////////////
// Proof Functions //""", """impl<CS: CipherSuite> core::hash::Hash for Proof<CS>
where
    <CS::Group as Group>::Scalar: core::hash::Hash,
    <CS::Hash as OutputSizeUser>::OutputSize:
        IsLess<U256> + IsLessOrEqual<<CS::Hash as BlockSizeUser>::BlockSize>,
{
    fn hash<H: core::hash::Hasher>(&self, state: &mut H) {
        self.c_scalar.hash(state);
        self.s_scalar.hash(state);
    }
}

impl<CS: CipherSuite> PartialOrd for Proof<CS>
where
    <CS::Group as Group>::Scalar: PartialOrd,
    <CS::Hash as OutputSizeUser>::OutputSize:
        IsLess<U256> + IsLessOrEqual<<CS::Hash as BlockSizeUser>::BlockSize>,
{
    fn partial_cmp(&self, other: &Self) -> Option<core::cmp::Ordering> {
        match self.c_scalar.partial_cmp(&other.c_scalar) {
            Some(core::cmp::Ordering::Equal) => self.s_scalar.partial_cmp(&other.s_scalar),
            order => order,
        }
    }
}

impl<CS: CipherSuite> Ord for Proof<CS>
where
    <CS::Group as Group>::Scalar: Ord,
    <CS::Hash as OutputSizeUser>::OutputSize:
        IsLess<U256> + IsLessOrEqual<<CS::Hash as BlockSizeUser>::BlockSize>,
{
    fn cmp(&self, other: &Self) -> core::cmp::Ordering {
        self.c_scalar
            .cmp(&other.c_scalar)
            .then_with(|| self.s_scalar.cmp(&other.s_scalar))
    }
}

/////////////////////
// Proof Functions //"""))
# --- serialization ------------------------------------------------------------
TAKE = """        if take > self.len() {
            return None;
        }

        let (front, back) = self.split_at(take);
        *self = back;
        Some(front)"""
E("take_checked", (se, TAKE, """        let (front, back) = self.split_at_checked(take)?;
        *self = back;
        Some(front)"""))
E("take_range", (se, TAKE, """        let all: &'a Self = self;
        let front = all.get(..take)?;
        *self = &all[take..];
        Some(front)"""))
E("take_remaining", (se, TAKE, """        let remaining = self.len().checked_sub(take)?;
        let (front, back) = self.split_at(self.len() - remaining);
        *self = back;
        Some(front)"""))
E("reader_struct",
  (se, """fn deserialize_elem<G: Group>(input: &mut &[u8]) -> Result<G::Elem> {
    let input = input
        .take_ext(G::ElemLen::USIZE)
        .ok_or(Error::Deserialization)?;
    G::deserialize_elem(input)
}
""", """fn deserialize_elem<G: Group>(input: &mut &[u8]) -> Result<G::Elem> {
    match input.take_ext(G::ElemLen::USIZE) {
        Some(bytes) => G::deserialize_elem(bytes),
        None => Err(Error::Deserialization),
    }
}
"""))
E("read_pair",
  (se, """        let c_scalar = deserialize_scalar::<CS::Group>(&mut input)?;
        let s_scalar = deserialize_scalar::<CS::Group>(&mut input)?;

        Ok(Proof { c_scalar, s_scalar })""", """        let input = &mut input;
        Ok(Proof {
            c_scalar: deserialize_scalar::<CS::Group>(input)?,
            s_scalar: deserialize_scalar::<CS::Group>(input)?,
        })"""))
E("read_and_then",
  (se, """        let sk = deserialize_scalar::<CS::Group>(&mut input)?;

        Ok(Self { sk })""", """        deserialize_scalar::<CS::Group>(&mut input).map(|sk| Self { sk })"""))
E("ser_copy",
  (se, """        CS::Group::serialize_scalar(self.c_scalar)
            .concat(CS::Group::serialize_scalar(self.s_scalar))""", """        let mut out = GenericArray::<u8, ProofLen<CS>>::default();
        let (c, s) = out.split_at_mut(<CS::Group as Group>::ScalarLen::USIZE);
        c.copy_from_slice(&CS::Group::serialize_scalar(self.c_scalar));
        s.copy_from_slice(&CS::Group::serialize_scalar(self.s_scalar));
        out"""))
E("ser_iter",
  (se, """        CS::Group::serialize_scalar(self.c_scalar)
            .concat(CS::Group::serialize_scalar(self.s_scalar))""", """        CS::Group::serialize_scalar(self.c_scalar)
            .into_iter()
            .chain(CS::Group::serialize_scalar(self.s_scalar))
            .collect()"""))
E("serde_question",
  (se, """            GenericArray::<_, G::ScalarLen>::deserialize(deserializer)
                .and_then(|bytes| G::deserialize_scalar(&bytes).map_err(D::Error::custom))""", """            let bytes = GenericArray::<u8, G::ScalarLen>::deserialize(deserializer)?;
            let scalar = G::deserialize_scalar(bytes.as_slice());
            scalar.map_err(|error| D::Error::custom(error))"""))
E("serde_fn_helper",
  (se, """            GenericArray::<_, G::ElemLen>::deserialize(deserializer)
                .and_then(|bytes| G::deserialize_elem(&bytes).map_err(D::Error::custom))""", """            read_bytes::<G::ElemLen, D>(deserializer)
                .and_then(|bytes| G::deserialize_elem(&bytes).map_err(D::Error::custom))"""),
  (se, "    pub(crate) struct Scalar<G: Group>(PhantomData<G>);", """    fn read_bytes<'de, L: generic_array::ArrayLength<u8>, D: Deserializer<'de>>(
        deserializer: D,
    ) -> Result<GenericArray<u8, L>, D::Error> {
        GenericArray::<u8, L>::deserialize(deserializer)
    }

    pub(crate) struct Scalar<G: Group>(PhantomData<G>);"""))
# --- backends -----------------------------------------------------------------
E("ec_deser_steps",
  (ec, """        EncodedPoint::<Self>::from_bytes(element_bits)
            .ok()
            .filter(|point| point.is_compressed())
            .and_then(|point| Option::from(PublicKey::<Self>::from_encoded_point(&point)))
            .map(|public_key: PublicKey<Self>| public_key.to_projective())
            .ok_or(Error::Deserialization)""", """        let point =
            EncodedPoint::<Self>::from_bytes(element_bits).map_err(|_| Error::Deserialization)?;
        if !point.is_compressed() {
            return Err(Error::Deserialization);
        }
        let public_key: Option<PublicKey<Self>> =
            PublicKey::<Self>::from_encoded_point(&point).into();
        match public_key {
            Some(public_key) => Ok(public_key.to_projective()),
            None => Err(Error::Deserialization),
        }"""))
E("ec_deser_len_first",
  (ec, """        EncodedPoint::<Self>::from_bytes(element_bits)
            .ok()
            .filter(|point| point.is_compressed())
            .and_then""", """        if element_bits.len() != Self::ElemLen::USIZE {
            return Err(Error::Deserialization);
        }
        EncodedPoint::<Self>::from_bytes(element_bits)
            .ok()
            .filter(|point| point.is_compressed())
            .and_then"""))
E("ec_scalar_filter",
  (ec, """        if scalar_bits.len() != Self::ScalarLen::USIZE {
            return Err(Error::Deserialization);
        }

        SecretKey::<Self>::from_slice(scalar_bits)
            .map(|secret_key| *secret_key.to_nonzero_scalar())
            .map_err(|_| Error::Deserialization)""", """        match SecretKey::<Self>::from_slice(scalar_bits) {
            Ok(secret_key) if scalar_bits.len() == Self::ScalarLen::USIZE => {
                Ok(*secret_key.to_nonzero_scalar())
            }
            _ => Err(Error::Deserialization),
        }"""))
E("ec_serialize_full",
  (ec, """        let bytes = elem.to_encoded_point(true);
        let bytes = bytes.as_bytes();
        let mut result = GenericArray::default();
        result[..bytes.len()].copy_from_slice(bytes);
        result""", """        let point = elem.to_encoded_point(true);
        let mut result = GenericArray::<u8, Self::ElemLen>::default();
        for (to, from) in result.iter_mut().zip(point.as_bytes()) {
            *to = *from;
        }
        result"""))
E("ec_random_match",
  (ec, "        *SecretKey::<Self>::random(rng).to_nonzero_scalar()", "        let secret_key = SecretKey::<Self>::random(rng);\n        let scalar = secret_key.to_nonzero_scalar();\n        *scalar.as_ref()"))
E("ec_hash_question",
  (ec, "        Self::hash_from_bytes::<ExpandMsgXmd<H>>(input, dst).map_err(|_| InternalError::Input)", """        let element = <Self as GroupDigest>::hash_from_bytes::<ExpandMsgXmd<H>>(input, dst);
        element.or(Err(InternalError::Input))"""))
E("ri_deser_scalar_steps",
  (ri, """        scalar_bits
            .try_into()
            .ok()
            .and_then(|bytes| Scalar::from_canonical_bytes(bytes).into())
            .filter(|scalar| scalar != &Scalar::ZERO)
            .ok_or(Error::Deserialization)""", """        let bytes: [u8; 32] = scalar_bits.try_into().map_err(|_| Error::Deserialization)?;
        let scalar: Option<Scalar> = Scalar::from_canonical_bytes(bytes).into();
        let scalar = scalar.ok_or(Error::Deserialization)?;
        if Self::is_zero_scalar(scalar).into() {
            return Err(Error::Deserialization);
        }
        Ok(scalar)"""))
E("ri_deser_scalar_copy",
  (ri, """        scalar_bits
            .try_into()
            .ok()
            .and_then(|bytes| Scalar::from_canonical_bytes(bytes).into())
            .filter(|scalar| scalar != &Scalar::ZERO)
            .ok_or(Error::Deserialization)""", """        if scalar_bits.len() != 32 {
            return Err(Error::Deserialization);
        }
        let mut bytes = [0u8; 32];
        bytes.copy_from_slice(scalar_bits);
        Option::<Scalar>::from(Scalar::from_canonical_bytes(bytes))
            .filter(|scalar| *scalar != Scalar::ZERO)
            .ok_or(Error::Deserialization)"""))
E("ri_deser_elem_steps",
  (ri, """        CompressedRistretto::from_slice(element_bits)
            .map_err(|_| Error::Deserialization)?
            .decompress()
            .filter(|point| point != &RistrettoPoint::identity())
            .ok_or(Error::Deserialization)""", """        let compressed =
            CompressedRistretto::from_slice(element_bits).map_err(|_| Error::Deserialization)?;
        match compressed.decompress() {
            Some(point) if !bool::from(Self::is_identity_elem(point)) => Ok(point),
            _ => Err(Error::Deserialization),
        }"""))
E("ri_random_filter",
  (ri, """        loop {
            let scalar = Scalar::random(rng);

            if scalar != Scalar::ZERO {
                break scalar;
            }
        }""", """        let mut scalar = Scalar::random(rng);
        while bool::from(Self::is_zero_scalar(scalar)) {
            scalar = Scalar::random(rng);
        }
        scalar"""))
E("ri_expand_helper",
  (ri, """        let mut uniform_bytes = GenericArray::<_, U64>::default();
        ExpandMsgXmd::<H>::expand_message(input, dst, 64)
            .map_err(|_| InternalError::Input)?
            .fill_bytes(&mut uniform_bytes);

        Ok(Scalar::from_bytes_mod_order_wide(&uniform_bytes.into()))""", """        let mut expander =
            ExpandMsgXmd::<H>::expand_message(input, dst, 64).map_err(|_| InternalError::Input)?;
        let mut uniform_bytes = [0_u8; 64];
        expander.fill_bytes(&mut uniform_bytes);

        Ok(Scalar::from_bytes_mod_order_wide(&uniform_bytes))"""))
E("gm_identity_override",
  (gm, "        Self::identity_elem().ct_eq(&elem)", "        let identity = Self::identity_elem();\n        elem.ct_eq(&identity)"))

"""Fourth round of behaviour-preserving edits."""
import re

C = {}


def E(name, *edits):
    C[name] = list(edits)


def must(s, old, new, n=1):
    assert s.count(old) == n, (s.count(old), old[:80])
    return s.replace(old, new)


def F(f, *pairs):
    """One file, several replacements, each applied to all its occurrences."""
    def go(s):
        for p in pairs:
            s = must(s, *p)
        return s
    return (f, go, None)


W = """where
    <CS::Hash as OutputSizeUser>::OutputSize:
        IsLess<U256> + IsLessOrEqual<<CS::Hash as BlockSizeUser>::BlockSize>,
"""
co, op, vo, po, se = "common.rs", "oprf.rs", "voprf.rs", "poprf.rs", "serialization.rs"
ec, ri, gm, li = "group/elliptic_curve.rs", "group/ristretto.rs", "group/mod.rs", "lib.rs"



HLOOP = "    for (i, (c, d)) in (0..len).zip(c_slice.zip(d_slice)) {"
H2 = """    let h2_input = [
        &elem_len,
        bm.as_slice(),
        &elem_len,
        &a0,
        &elem_len,
        &a1,
        &elem_len,
        &a2,
        &elem_len,
        &a3,
        &STR_CHALLENGE,
    ];
"""
# --- common.rs ----------------------------------------------------------------
E("composites_try_index", F(co,
  ("    let len = u16::try_from(c_slice.len()).map_err(|_| Error::Batch)?;\n", "    if c_slice.len() > usize::from(u16::MAX) {\n        return Err(Error::Batch);\n    }\n"),
  (HLOOP, "    for (i, (c, d)) in c_slice.zip(d_slice).enumerate() {\n        let i = u16::try_from(i).map_err(|_| Error::Batch)?;")))
E("composites_wrapping", F(co,
  ("    let len = u16::try_from(c_slice.len()).map_err(|_| Error::Batch)?;\n", "    u16::try_from(c_slice.len()).map_err(|_| Error::Batch)?;\n    let mut i = 0_u16;\n"),
  (HLOOP, "    for (c, d) in c_slice.zip(d_slice) {"),
  ("""            None => d * &di + &z,
        };
    }
""", """            None => d * &di + &z,
        };
        i = i.wrapping_add(1);
    }
""")))
E("composites_u16_all", F(co,
  ("    let len = u16::try_from(c_slice.len()).map_err(|_| Error::Batch)?;\n", "    if u16::try_from(c_slice.len()).is_err() {\n        return Err(Error::Batch);\n    }\n"),
  (HLOOP, "    for ((c, d), i) in c_slice.zip(d_slice).zip(0..=u16::MAX) {")))
E("composites_iter_zip", F(co,
  (HLOOP, "    for (i, (c, d)) in core::iter::zip(0..len, core::iter::zip(c_slice, d_slice)) {")))
E("composites_extra_guard", F(co,
  ("    if c_slice.len() != d_slice.len() {\n", "    let limit = usize::from(u16::MAX);\n    if c_slice.len() > limit || d_slice.len() > limit || c_slice.len() != d_slice.len() {\n")))
E("composites_loop_match", F(co,
  (HLOOP, """    let mut pairs = c_slice.zip(d_slice);
    let mut i = 0_u16;
    loop {
        let (c, d) = match pairs.next() {
            Some(pair) => pair,
            None => break,
        };"""),
  ("    let len = u16::try_from(c_slice.len()).map_err(|_| Error::Batch)?;\n", "    let _len = u16::try_from(c_slice.len()).map_err(|_| Error::Batch)?;\n"),
  ("""            None => d * &di + &z,
        };
    }
""", """            None => d * &di + &z,
        };
        i = i.wrapping_add(1);
    }
""")))
E("composites_role_enum", F(co,
  ("/// Can only fail with [`Error::Batch`].\nfn compute_composites<", """enum Party<S> {
    Prover(S),
    Verifier,
}

/// Can only fail with [`Error::Batch`].
fn compute_composites<"""),
  ("    k_option: Option<<CS::Group as Group>::Scalar>,", "    party: Party<<CS::Group as Group>::Scalar>,"),
  ("""        z = match k_option {
            Some(_) => z,
            None => d * &di + &z,
        };""", """        if let Party::Verifier = party {
            z = d * &di + &z;
        }"""),
  ("""    z = match k_option {
        Some(k) => m * &k,
        None => z,
    };

    Ok((m, z))""", """    Ok(match party {
        Party::Prover(k) => (m, m * &k),
        Party::Verifier => (m, z),
    })"""),
  ("compute_composites::<CS, _, _>(Some(k), b, cs, ds, mode)?", "compute_composites::<CS, _, _>(Party::Prover(k), b, cs, ds, mode)?"),
  ("compute_composites::<CS, _, _>(None, b, cs, ds, mode)?", "compute_composites::<CS, _, _>(Party::Verifier, b, cs, ds, mode)?")))
E("composites_closure_acc", F(co,
  ("    let mut m = CS::Group::identity_elem();\n    let mut z = CS::Group::identity_elem();\n", """    let mut m = CS::Group::identity_elem();
    let mut z = CS::Group::identity_elem();
    let mut accumulate = |weight: <CS::Group as Group>::Scalar, c, d: <CS::Group as Group>::Elem| {
        m = c * &weight + &m;
        if k_option.is_none() {
            z = d * &weight + &z;
        }
    };
"""),
  ("""        m = c * &di + &m;
        z = match k_option {
            Some(_) => z,
            None => d * &di + &z,
        };
""", "        accumulate(di, c, d);\n"),
  ("""    for (i, (c, d)) in""", """    for (i, (c, d)) in"""),
  ))
E("challenge_macro", F(co,
  ("pub(crate) fn generate_proof<", """macro_rules! challenge_input {
    ($len:expr, $first:expr, $($x:expr),+) => {
        [$len.as_slice(), $first.as_slice(), $($len.as_slice(), $x.as_slice(),)+ STR_CHALLENGE.as_slice()]
    };
}

pub(crate) fn generate_proof<"""),
  (H2, "    let h2_input = challenge_input!(elem_len, bm, a0, a1, a2, a3);\n", 2)))
E("challenge_closure", F(co, *[
  ("    let %s = CS::Group::serialize_elem(%s);\n" % (v, x), "    let %s = encode(%s);\n" % (v, x), 2) for v, x in (("a0", "m"), ("a1", "z"), ("a2", "t2"), ("a3", "t3"))],
  ("    let bm = CS::Group::serialize_elem(b);\n", "    let encode = |elem| CS::Group::serialize_elem(elem);\n    let bm = encode(b);\n", 2)))
E("challenge_flattened", F(co,
  (H2, """    let h2_input = [
        [elem_len.as_slice(), bm.as_slice()],
        [&elem_len, &a0],
        [&elem_len, &a1],
        [&elem_len, &a2],
        [&elem_len, &a3],
        [&STR_CHALLENGE, &[]],
    ];
    let h2_input = h2_input.as_flattened();
""", 2),
  ("hash_to_scalar::<CS::Hash>(&h2_input, &dst.as_dst()).unwrap();\n    let s_scalar", "hash_to_scalar::<CS::Hash>(h2_input, &dst.as_dst()).unwrap();\n    let s_scalar"),
  ("    let c = CS::Group::hash_to_scalar::<CS::Hash>(&h2_input, &dst.as_dst()).unwrap();", "    let c = CS::Group::hash_to_scalar::<CS::Hash>(h2_input, &dst.as_dst()).unwrap();")))
E("verify_ctoption", F(co,
  ("""    match c.ct_eq(&proof.c_scalar).into() {
        true => Ok(()),
        false => Err(Error::ProofVerification),
    }""", """    Option::<()>::from(subtle::CtOption::new((), c.ct_eq(&proof.c_scalar)))
        .ok_or(Error::ProofVerification)""")))
E("verify_combination", F(co,
  ("    let t2 = (a * &proof.s_scalar) + &(b * &proof.c_scalar);\n    let t3 = (m * &proof.s_scalar) + &(z * &proof.c_scalar);\n", "    let t2 = proof.combine(a, b);\n    let t3 = proof.combine(m, z);\n"),
  ("/////////////////////\n// Proof Functions //", """impl<CS: CipherSuite> Proof<CS>
""" + W + """{
    fn combine(
        &self,
        left: <CS::Group as Group>::Elem,
        right: <CS::Group as Group>::Elem,
    ) -> <CS::Group as Group>::Elem {
        left * &self.s_scalar + &(right * &self.c_scalar)
    }
}

/////////////////////
// Proof Functions //""")))
E("proof_commit", F(co,
  ("    let t2 = a * &r;\n    let t3 = m * &r;\n", "    let [t2, t3] = [a, m].map(|elem| elem * &r);\n")))
E("derive_counters", F(co,
  ("    for counter in 0_u8..=u8::MAX {\n", "    let mut counters = 0_u8..=u8::MAX;\n    while let Some(counter) = counters.next() {\n")))
E("derive_u16_as", F(co,
  ("    for counter in 0_u8..=u8::MAX {\n", "    for counter in (0_u16..256).map(|counter| counter as u8) {\n")))
E("keypair_map", F(co,
  ("""    let sk_s = derive_key_internal::<CS>(seed, info, mode)?;
    let pk_s = CS::Group::base_elem() * &sk_s;

    Ok((sk_s, pk_s))""", """    derive_key_internal::<CS>(seed, info, mode)
        .map(|secret| (secret, CS::Group::base_elem() * &secret))""")))
E("info_len_transpose", F(co,
  ("""    if let Some(info) = info {
        hash = hash
            .chain_update(i2osp_2(info.as_ref().len()).map_err(|_| Error::Input)?)
            .chain_update(info.as_ref());
    }
""", """    let info_len = info
        .map(|info| i2osp_2(info.len()))
        .transpose()
        .map_err(|_| Error::Input)?;
    if let (Some(info_len), Some(info)) = (info_len, info) {
        hash = hash.chain_update(info_len).chain_update(info);
    }
""")))
E("hash_multi", F(co,
  ("""    let mut hash = CS::Hash::new()
        .chain_update(i2osp_2(input.as_ref().len()).map_err(|_| Error::Input)?)
        .chain_update(input.as_ref());
""", """    let input_len = i2osp_2(input.len()).map_err(|_| Error::Input)?;
    let mut hash = CS::Hash::new().chain_update_multi(&[&input_len, input]);
""")))
E("multi_iter_fold", F(co,
  ("""    fn chain_update_multi(mut self, datas: &[&[u8]]) -> Self {
        for data in datas {
            self.update(data)
        }

        self
    }""", """    fn chain_update_multi(self, datas: &[&[u8]]) -> Self {
        datas.iter().fold(self, T::chain_update)
    }""")))
E("dst_len_field", F(co,
  ("    pub(crate) fn i2osp_2(&self) -> [u8; 2] {\n        u16::try_from(L::USIZE + self.dst_2.len())", "    fn len(&self) -> usize {\n        self.as_dst().iter().map(|part| part.len()).sum()\n    }\n\n    pub(crate) fn i2osp_2(&self) -> [u8; 2] {\n        u16::try_from(self.len())")))
E("group_mul_base", F(gm,
  ("    /// Returns the identity group element", """    /// Multiplies the base element
    fn mul_base(scalar: &Self::Scalar) -> Self::Elem {
        Self::base_elem() * scalar
    }

    /// Returns the identity group element""")),
  F(co, ("    let pk_s = CS::Group::base_elem() * &sk_s;", "    let pk_s = CS::Group::mul_base(&sk_s);")),
  F(vo, ("        let pk = CS::Group::base_elem() * &sk;", "        let pk = CS::Group::mul_base(&sk);")),
  F(po, ("        let pk = CS::Group::base_elem() * &sk;", "        let pk = CS::Group::mul_base(&sk);"), ("    let t = CS::Group::base_elem() * &m;", "    let t = CS::Group::mul_base(&m);")))
# --- voprf.rs -----------------------------------------------------------------
E("vo_from_ref", F(vo,
  ("            self.batch_blind_evaluate_prepare(iter::once(blinded_element));", "            self.batch_blind_evaluate_prepare(core::slice::from_ref(blinded_element).iter());"),
  ("                iter::once(blinded_element),\n", "                core::slice::from_ref(blinded_element).iter(),\n")))
E("vo_len_match", F(vo,
  ("""        if inputs.len() != unblinded_elements.len() {
            return Err(Error::Batch);
        }

        let inputs_and_unblinded_elements = inputs.zip(unblinded_elements);
        Ok(finalize_after_unblind::<CS, _, _>(
            inputs_and_unblinded_elements,
        ))""", """        match inputs.len().cmp(&unblinded_elements.len()) {
            core::cmp::Ordering::Equal => {
                let pairs = iter::zip(inputs, unblinded_elements);
                Ok(finalize_after_unblind::<CS, _, _>(pairs))
            }
            _ => Err(Error::Batch),
        }""")))
E("vo_next_ok_or", F(vo,
  ("""        let mut batch_result = Self::batch_finalize(inputs, clients, messages, proof, pk)?;
        batch_result.next().unwrap()""", """        Self::batch_finalize(inputs, clients, messages, proof, pk)?
            .next()
            .ok_or(Error::Batch)?""")))
E("vo_random_seed", F(vo,
  ("""        let mut seed = GenericArray::<_, <CS::Group as Group>::ScalarLen>::default();
        rng.fill_bytes(&mut seed);
        // This can't fail as the hash output is type constrained.
        Self::new_from_seed(&seed, &[])""", """        let seed = random_seed::<CS::Group, R>(rng);
        Self::new_from_seed(seed.as_slice(), b"")"""),
  ("type FinalizeAfterUnblindResult<'a, C, I, IE>", """fn random_seed<G: Group, R: RngCore + CryptoRng>(rng: &mut R) -> GenericArray<u8, G::ScalarLen> {
    let mut seed = GenericArray::default();
    rng.fill_bytes(seed.as_mut_slice());
    seed
}

type FinalizeAfterUnblindResult<'a, C, I, IE>""")))
E("vo_with_key_map", F(vo,
  ("""        let sk = CS::Group::deserialize_scalar(key)?;
        let pk = CS::Group::base_elem() * &sk;
        Ok(Self { sk, pk })""", """        CS::Group::deserialize_scalar(key).map(|sk| Self {
            pk: CS::Group::base_elem() * &sk,
            sk,
        })""")))
E("vo_element_fns", F(vo,
  ("            blinded_elements.map(|element| element.0),\n            evaluation_elements.into_iter().map(|element| element.0 .0),", "            blinded_elements.map(BlindedElement::elem),\n            evaluation_elements.into_iter().map(PreparedEvaluationElement::elem),")),
  F(co, ("/////////////////////\n// Proof Functions //", """impl<CS: CipherSuite> BlindedElement<CS>
""" + W + """{
    pub(crate) fn elem(&self) -> <CS::Group as Group>::Elem {
        self.0
    }
}

impl<CS: CipherSuite> PreparedEvaluationElement<CS>
""" + W + """{
    pub(crate) fn elem(&self) -> <CS::Group as Group>::Elem {
        let EvaluationElement(elem) = &self.0;
        *elem
    }
}

/////////////////////
// Proof Functions //""")))
E("vo_unblind_pairs", F(vo,
  ("""type VoprfUnblindResult<'a, CS, IC, IM> = Map<
    Zip<
        Map<
            <&'a IC as IntoIterator>::IntoIter,
            fn(&VoprfClient<CS>) -> <<CS as CipherSuite>::Group as Group>::Scalar,
        >,
        <&'a IM as IntoIterator>::IntoIter,
    >,
    fn(
        (
            <<CS as CipherSuite>::Group as Group>::Scalar,
            &EvaluationElement<CS>,
        ),
    ) -> <<CS as CipherSuite>::Group as Group>::Elem,
>;""", """type VoprfUnblindResult<'a, CS, IC, IM> = Map<
    Zip<<&'a IC as IntoIterator>::IntoIter, <&'a IM as IntoIterator>::IntoIter>,
    fn(
        (&'a VoprfClient<CS>, &'a EvaluationElement<CS>),
    ) -> <<CS as CipherSuite>::Group as Group>::Elem,
>;"""),
  ("""    let blinds = clients
        .into_iter()
        // Convert to `fn` pointer to make a return type possible.
        .map(<fn(&VoprfClient<CS>) -> _>::from(|x| x.blind));
""", ""),
  ("""    Ok(blinds
        .zip(messages)
        .map(|(blind, x)| x.0 * &CS::Group::invert_scalar(blind)))""", """    Ok(clients
        .into_iter()
        .zip(messages)
        .map(|(client, x)| x.0 * &CS::Group::invert_scalar(client.blind)))""")))
E("vo_evaluate_then", F(vo,
  ("""        let input_element = hash_to_group::<CS>(input, Mode::Voprf)?;
        if CS::Group::is_identity_elem(input_element).into() {
            return Err(Error::Input);
        };
        let evaluated_element = input_element * &self.sk;

        let issued_element = CS::Group::serialize_elem(evaluated_element);

        server_evaluate_hash_input::<CS>(input, None, issued_element)""", """        hash_to_group::<CS>(input, Mode::Voprf)
            .and_then(|elem| match CS::Group::is_identity_elem(elem).unwrap_u8() {
                0 => Ok(elem * &self.sk),
                _ => Err(Error::Input),
            })
            .map(CS::Group::serialize_elem)
            .and_then(|issued| server_evaluate_hash_input::<CS>(input, None, issued))""")))
# --- poprf.rs -----------------------------------------------------------------
INFO_S = """    let info_len = i2osp_2(info.len()).map_err(|_| Error::Info)?;
    let framed_info = [STR_INFO.as_slice(), &info_len, info];

    let dst = Dst::new::<CS, _, _>(STR_HASH_TO_SCALAR, Mode::Poprf);
    // This can't fail, the size of the `input` is known.
    let m = CS::Group::hash_to_scalar::<CS::Hash>(&framed_info, &dst.as_dst()).unwrap();
"""
E("po_info_continuation", F(po,
  (INFO_S + "\n    let t = CS::Group::base_elem() * &m;\n    let tweaked_key = t + &pk;\n\n    // Check if resulting element\n    match bool::from(CS::Group::is_identity_elem(tweaked_key)) {\n        true => Err(Error::Protocol),\n        false => Ok(tweaked_key),\n    }\n", """    with_info_scalar::<CS, _, _>(info, |m| {
        let tweaked_key = CS::Group::base_elem() * &m + &pk;
        (CS::Group::is_identity_elem(tweaked_key), tweaked_key)
    })
"""),
  (INFO_S + "\n    let t = sk + &m;\n\n    // Check if resulting element is equal to zero\n    match bool::from(CS::Group::is_zero_scalar(t)) {\n        true => Err(Error::Protocol),\n        false => Ok(t),\n    }\n", """    with_info_scalar::<CS, _, _>(info, |m| {
        let t = sk + &m;
        (CS::Group::is_zero_scalar(t), t)
    })
"""),
  ("type PoprfUnblindResult<'a, CS, IC, IM>", """fn with_info_scalar<CS: CipherSuite, T, F>(info: &[u8], tweak: F) -> Result<T>
where
    F: FnOnce(<CS::Group as Group>::Scalar) -> (subtle::Choice, T),
    <CS::Hash as OutputSizeUser>::OutputSize:
        IsLess<U256> + IsLessOrEqual<<CS::Hash as BlockSizeUser>::BlockSize>,
{
""" + INFO_S + """
    let (degenerate, tweaked) = tweak(m);
    if degenerate.into() {
        Err(Error::Protocol)
    } else {
        Ok(tweaked)
    }
}

type PoprfUnblindResult<'a, CS, IC, IM>""")))
E("po_evaluate_chain", F(po,
  ("""        let input_element = hash_to_group::<CS>(input, Mode::Poprf)?;
        if CS::Group::is_identity_elem(input_element).into() {
            return Err(Error::Input);
        };

        let tweak = compute_tweak::<CS>(self.sk, info)?;

        let evaluated_element = input_element * &CS::Group::invert_scalar(tweak);
""", """        let input_element = hash_to_group::<CS>(input, Mode::Poprf)?;
        let evaluated_element = Some(input_element)
            .filter(|elem| !bool::from(CS::Group::is_identity_elem(*elem)))
            .ok_or(Error::Input)
            .and_then(|elem| {
                compute_tweak::<CS>(self.sk, info)
                    .map(|tweak| elem * &CS::Group::invert_scalar(tweak))
            })?;
""")))
E("po_info_literal", F(po,
  ("    let info = info.unwrap_or_default();\n\n    Ok(unblinded", "    let info: &'a [u8] = info.unwrap_or(b\"\");\n\n    Ok(unblinded"),
  ("    let info = info.unwrap_or_default();\n    let tweaked_key = compute_tweaked_key::<CS>(pk, Some(info))?;", "    let tweaked_key = compute_tweaked_key::<CS>(pk, info)?;")))
E("po_finish_vec_order", F(po,
  ("""        let g = CS::Group::base_elem();
        let tweak = prepared_tweak.0;
        let tweaked_key = g * &tweak;
""", """        let PoprfPreparedTweak(tweak) = prepared_tweak;
        let tweak = *tweak;
        let g = CS::Group::base_elem();
        let tweaked_key = CS::Group::base_elem() * &tweak;
""")))
E("po_prepared_ctor", F(po,
  ("""                    PreparedEvaluationElement(EvaluationElement(
                        blinded_element.0 * &CS::Group::invert_scalar(tweak),
                    ))""", """                    let inverse = CS::Group::invert_scalar(tweak);
                    let BlindedElement(element) = *blinded_element;
                    let evaluated = EvaluationElement(element * &inverse);
                    PreparedEvaluationElement(evaluated)""")))
E("po_once_array", F(po,
  ("            Self::batch_finalize(iter::once(input), clients, messages, proof, pk, info)?;", "            Self::batch_finalize([input].into_iter(), clients, messages, proof, pk, info)?;")))
# --- serialization.rs ---------------------------------------------------------
E("se_manual_serde_proof", F(se,
  ("//////////////////////////////////////////////////////////\n// Serialization and Deserialization for High-Level API //", """#[cfg(feature = "serde")]
impl<CS: CipherSuite> ::serde::Serialize for Proof<CS>
""" + W + """{
    fn serialize<S: ::serde::Serializer>(&self, serializer: S) -> core::result::Result<S::Ok, S::Error> {
        use ::serde::ser::SerializeStruct;

        struct With<'a, G: Group>(&'a G::Scalar);

        impl<G: Group> ::serde::Serialize for With<'_, G> {
            fn serialize<S: ::serde::Serializer>(&self, serializer: S) -> core::result::Result<S::Ok, S::Error> {
                self::serde::Scalar::<G>::serialize(self.0, serializer)
            }
        }

        let mut state = serializer.serialize_struct("Proof", 2)?;
        state.serialize_field("c_scalar", &With::<CS::Group>(&self.c_scalar))?;
        state.serialize_field("s_scalar", &With::<CS::Group>(&self.s_scalar))?;
        state.end()
    }
}

//////////////////////////////////////////////////////////
// Serialization and Deserialization for High-Level API //""")),
  (co, lambda s: must(s, """    derive(serde::Deserialize, serde::Serialize),
    serde(bound = "")
)]
pub struct Proof<""", """    derive(serde::Deserialize),
    serde(bound = "")
)]
pub struct Proof<"""), None))
# --- backends -----------------------------------------------------------------
E("ec_is_zero_cteq", F(ec,
  ("        scalar.is_zero()\n", "        subtle::ConstantTimeEq::ct_eq(&scalar, &Scalar::<Self>::ZERO)\n")))
E("ri_random_from_fn", F(ri,
  ("""        loop {
            let scalar = Scalar::random(rng);

            if scalar != Scalar::ZERO {
                break scalar;
            }
        }""", """        let mut scalar = Scalar::ZERO;
        while bool::from(Self::is_zero_scalar(scalar)) {
            scalar = Scalar::random(rng);
        }
        scalar""")))
E("ri_deser_map_or", F(ri,
  ("""            .decompress()
            .filter(|point| point != &RistrettoPoint::identity())
            .ok_or(Error::Deserialization)""", """            .decompress()
            .map_or(Err(Error::Deserialization), |point| {
                if bool::from(Self::is_identity_elem(point)) {
                    Err(Error::Deserialization)
                } else {
                    Ok(point)
                }
            })""")))
E("co_manual_debug", F(co,
  ("#[derive_where(Debug, Eq, Hash, Ord, PartialEq, PartialOrd; <CS::Group as Group>::Scalar)]", "#[derive_where(Eq, Hash, Ord, PartialEq, PartialOrd; <CS::Group as Group>::Scalar)]"),
  ("/////////////////////\n// Proof Functions //", """impl<CS: CipherSuite> core::fmt::Debug for Proof<CS>
where
    <CS::Group as Group>::Scalar: core::fmt::Debug,
    <CS::Hash as OutputSizeUser>::OutputSize:
        IsLess<U256> + IsLessOrEqual<<CS::Hash as BlockSizeUser>::BlockSize>,
{
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.debug_struct("Proof")
            .field("c_scalar", &self.c_scalar)
            .field("s_scalar", &self.s_scalar)
            .finish()
    }
}

/////////////////////
// Proof Functions //""")))

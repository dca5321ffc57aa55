"""Third round of behaviour-preserving edits: larger restructurings."""
import re

C = {}


def E(name, *edits):
    C[name] = list(edits)


def must(s, old, new, n=1):
    assert s.count(old) == n, (s.count(old), old[:80])
    return s.replace(old, new)


def F(f, *pairs):
    """One file, several replacements, each applied to all its occurrences."""
    def go(s):
        for p in pairs:
            s = must(s, *p)
        return s
    return (f, go, None)


W = """where
    <CS::Hash as OutputSizeUser>::OutputSize:
        IsLess<U256> + IsLessOrEqual<<CS::Hash as BlockSizeUser>::BlockSize>,
"""
co, op, vo, po, se = "common.rs", "oprf.rs", "voprf.rs", "poprf.rs", "serialization.rs"
ec, ri, gm, li = "group/elliptic_curve.rs", "group/ristretto.rs", "group/mod.rs", "lib.rs"


def cut(s, a, b):
    i = s.index(a)
    j = s.index(b, i)
    return s[i:j], s[:i] + s[j:]


def chal(s):
    """both challenges through one function over an array of elements, hashing input built by index"""
    i = s.index("    // Bm = GG.SerializeElement(B)")
    j = s.index("    let s_scalar = r - &(c_scalar * &k);")
    s = s[:i] + "    let c_scalar = challenge::<CS>([b, m, z, t2, t3], mode);\n" + s[j:]
    i = s.index("    // Bm = GG.SerializeElement(B)")
    j = s.index("    match c.ct_eq(&proof.c_scalar).into() {")
    s = s[:i] + "    let c = challenge::<CS>([b, m, z, t2, t3], mode);\n\n" + s[j:]
    return must(s, "type ComputeCompositesResult<CS> = (", """fn challenge<CS: CipherSuite>(
    transcript: [<CS::Group as Group>::Elem; 5],
    mode: Mode,
) -> <CS::Group as Group>::Scalar
""" + W + """{
    let elem_len = <CS::Group as Group>::ElemLen::U16.to_be_bytes();
    let encoded = transcript.map(CS::Group::serialize_elem);
    let mut h2_input: [&[u8]; 11] = [&STR_CHALLENGE; 11];
    for (i, bytes) in encoded.iter().enumerate() {
        h2_input[2 * i] = &elem_len;
        h2_input[2 * i + 1] = bytes;
    }

    let dst = Dst::new::<CS, _, _>(STR_HASH_TO_SCALAR, mode);
    // This can't fail, the size of the `input` is known.
    CS::Group::hash_to_scalar::<CS::Hash>(&h2_input, &dst.as_dst()).unwrap()
}

type ComputeCompositesResult<CS> = (""")


E("challenge_by_index", (co, chal, None))


def chal2(s):
    s = chal(s)
    i = s.index("    let encoded = transcript.map(CS::Group::serialize_elem);")
    j = s.index("    let dst = Dst::new::<CS, _, _>(STR_HASH_TO_SCALAR, mode);", i)
    return s[:i] + """    let [bm, a0, a1, a2, a3] = transcript.map(|elem| CS::Group::serialize_elem(elem));
    let h2_input: [&[u8]; 11] = [
        &elem_len, &bm, &elem_len, &a0, &elem_len, &a1, &elem_len, &a2, &elem_len, &a3,
        &STR_CHALLENGE,
    ];

""" + s[j:]


E("challenge_array_map", (co, chal2, None))


def chal3(s):
    s = chal(s)
    s = must(s, "challenge::<CS>([b, m, z, t2, t3], mode)", "challenge::<CS>(&b, (&m, &z), (&t2, &t3), mode)", 2)
    i = s.index("    transcript: [<CS::Group as Group>::Elem; 5],")
    s = must(s, "    transcript: [<CS::Group as Group>::Elem; 5],\n", """    key: &<CS::Group as Group>::Elem,
    composites: (&<CS::Group as Group>::Elem, &<CS::Group as Group>::Elem),
    commitments: (&<CS::Group as Group>::Elem, &<CS::Group as Group>::Elem),
""")
    i = s.index("    let encoded = transcript.map(CS::Group::serialize_elem);")
    j = s.index("    let dst = Dst::new::<CS, _, _>(STR_HASH_TO_SCALAR, mode);", i)
    return s[:i] + """    let encode = |elem: &<CS::Group as Group>::Elem| CS::Group::serialize_elem(*elem);
    let key = encode(key);
    let composites = (encode(composites.0), encode(composites.1));
    let commitments = (encode(commitments.0), encode(commitments.1));
    let h2_input = [
        elem_len.as_slice(),
        key.as_slice(),
        elem_len.as_slice(),
        composites.0.as_slice(),
        elem_len.as_slice(),
        composites.1.as_slice(),
        elem_len.as_slice(),
        commitments.0.as_slice(),
        elem_len.as_slice(),
        commitments.1.as_slice(),
        STR_CHALLENGE.as_slice(),
    ];

""" + s[j:]


E("challenge_refs", (co, chal3, None))


def fast_slow(s):
    """one composites function for the prover and one for the verifier"""
    s = must(s, "compute_composites::<CS, _, _>(Some(k), b, cs, ds, mode)?", "compute_composites_fast::<CS, _, _>(k, b, cs, ds, mode)?")
    s = must(s, "compute_composites::<CS, _, _>(None, b, cs, ds, mode)?", "compute_composites::<CS, _, _>(b, cs, ds, mode)?")
    i = s.index("/// Can only fail with [`Error::Batch`].\nfn compute_composites<")
    j = s.index("/////////////////////\n// Inner Functions //")
    body = s[i:j]
    slow = must(body, "    k_option: Option<<CS::Group as Group>::Scalar>,\n", "")
    slow = must(slow, """        z = match k_option {
            Some(_) => z,
            None => d * &di + &z,
        };
""", "        z = d * &di + &z;\n")
    slow = must(slow, """    z = match k_option {
        Some(k) => m * &k,
        None => z,
    };

""", "")
    fast = must(body, "    k_option: Option<<CS::Group as Group>::Scalar>,\n", "    k: <CS::Group as Group>::Scalar,\n")
    fast = must(fast, """        z = match k_option {
            Some(_) => z,
            None => d * &di + &z,
        };
""", "")
    fast = must(fast, """    z = match k_option {
        Some(k) => m * &k,
        None => z,
    };

    Ok((m, z))""", "    let z = m * &k;\n\n    Ok((m, z))")
    fast = must(fast, "    let mut z = CS::Group::identity_elem();\n", "")
    fast = must(fast, "fn compute_composites<", "fn compute_composites_fast<")
    return s[:i] + fast + slow + s[j:]


E("composites_split", (co, fast_slow, None))

E("composites_accumulator",
  F(co, ("""    let mut m = CS::Group::identity_elem();
    let mut z = CS::Group::identity_elem();
""", """    let mut composites = Composites::<CS> {
        m: CS::Group::identity_elem(),
        z: CS::Group::identity_elem(),
    };
"""), ("""        m = c * &di + &m;
        z = match k_option {
            Some(_) => z,
            None => d * &di + &z,
        };
    }

    z = match k_option {
        Some(k) => m * &k,
        None => z,
    };

    Ok((m, z))
}
""", """        composites.absorb(di, c, Some(d).filter(|_| k_option.is_none()));
    }

    if let Some(k) = k_option {
        composites.z = composites.m * &k;
    }

    Ok((composites.m, composites.z))
}

struct Composites<CS: CipherSuite>
""" + W + """{
    m: <CS::Group as Group>::Elem,
    z: <CS::Group as Group>::Elem,
}

impl<CS: CipherSuite> Composites<CS>
""" + W + """{
    fn absorb(
        &mut self,
        coefficient: <CS::Group as Group>::Scalar,
        c: <CS::Group as Group>::Elem,
        d: Option<<CS::Group as Group>::Elem>,
    ) {
        self.m = self.m + &(c * &coefficient);
        if let Some(d) = d {
            self.z = self.z + &(d * &coefficient);
        }
    }
}
""")))

E("composites_coefficient_fn",
  F(co, ("    for (i, (c, d)) in (0..len).zip(c_slice.zip(d_slice)) {\n", """    let coefficient = |i: u16, c, d| {
"""), ("""        let di = CS::Group::hash_to_scalar::<CS::Hash>(&h2_input, &dst.as_dst()).unwrap();
        m = c * &di + &m;
""", """        CS::Group::hash_to_scalar::<CS::Hash>(&h2_input, &dst.as_dst()).unwrap()
    };

    for ((c, d), i) in c_slice.zip(d_slice).zip(0..len) {
        let di = coefficient(i, c, d);
        m = c * &di + &m;
""")))

E("composites_scan_index",
  F(co, ("    for (i, (c, d)) in (0..len).zip(c_slice.zip(d_slice)) {\n", "    let mut i = 0_u16;\n    for (c, d) in c_slice.zip(d_slice) {\n"),
    ("""            None => d * &di + &z,
        };
    }
""", """            None => d * &di + &z,
        };
        i = i.wrapping_add(1);
    }
""")))

E("composites_k_map_or",
  F(co, ("""    z = match k_option {
        Some(k) => m * &k,
        None => z,
    };

    Ok((m, z))""", """    Ok((m, k_option.map_or(z, |k| m * &k)))""")))

# --- shared finalize hash -------------------------------------------------------
HASH_VO = """        let elem_len = <CS::Group as Group>::ElemLen::U16.to_be_bytes();

        // hashInput = I2OSP(len(input), 2) || input ||
        //             I2OSP(len(unblindedElement), 2) || unblindedElement ||
        //             "Finalize"
        // return Hash(hashInput)
        Ok(CS::Hash::new()
            .chain_update(i2osp_2(input.as_ref().len()).map_err(|_| Error::Input)?)
            .chain_update(input.as_ref())
            .chain_update(elem_len)
            .chain_update(CS::Group::serialize_elem(unblinded_element))
            .chain_update(STR_FINALIZE)
            .finalize())
"""


def strip_comments(s):
    return re.sub(r"(?m)^ *// .*\n", "", s)


def shared_vo(s):
    i = s.index("        let elem_len = <CS::Group as Group>::ElemLen::U16.to_be_bytes();")
    j = s.index("            .finalize())\n", i) + len("            .finalize())\n")
    s = s[:i] + """        server_evaluate_hash_input::<CS>(
            input.as_ref(),
            None,
            CS::Group::serialize_elem(unblinded_element),
        )
""" + s[j:]
    s = s.replace("i2osp_2, ", "").replace("hash_to_group, i2osp_2,", "hash_to_group,").replace(", STR_FINALIZE", "")
    s = s.replace("use digest::{Digest, Output", "use digest::{Output").replace(", Unsigned, U256}", ", U256}")
    return s


E("finalize_uses_server_hash", (vo, shared_vo, None), (op, shared_vo, None))


def po_fn_pointer(s):
    i = s.index("    Ok(unblinded_elements.zip(inputs).zip(iter::repeat(info)).map(\n")
    j = s.index("    ))\n}\n", i) + len("    ))\n}\n")
    return s[:i] + """    Ok(unblinded_elements
        .zip(inputs)
        .zip(iter::repeat(info))
        .map(finalize_entry::<CS>))
}

fn finalize_entry<CS: CipherSuite>(
    ((unblinded_element, input), info): ((<CS::Group as Group>::Elem, &[u8]), &[u8]),
) -> Result<Output<CS::Hash>>
""" + W + """{
    let frame = |value: &[u8], error| i2osp_2(value.len()).map_err(|_| error);
    let input_len = frame(input, Error::Input)?;
    let info_len = frame(info, Error::Info)?;
    let elem_len = <CS::Group as Group>::ElemLen::U16.to_be_bytes();

    let mut hash = CS::Hash::new();
    hash.update(input_len);
    hash.update(input);
    hash.update(info_len);
    hash.update(info);
    hash.update(elem_len);
    hash.update(CS::Group::serialize_elem(unblinded_element));
    hash.update(STR_FINALIZE);
    Ok(hash.finalize())
}
""" + s[j:]


E("po_finalize_entry", (po, po_fn_pointer, None))

E("po_finalize_direct",
  F(po, ("""        let clients = core::array::from_ref(self);
        let messages = core::array::from_ref(evaluation_element);

        let mut batch_result =
            Self::batch_finalize(iter::once(input), clients, messages, proof, pk, info)?;
        batch_result.next().unwrap()""", """        let info = info.unwrap_or_default();
        let tweaked_key = compute_tweaked_key::<CS>(pk, Some(info))?;
        verify_proof(
            CS::Group::base_elem(),
            tweaked_key,
            iter::once(evaluation_element.0),
            iter::once(self.blinded_element),
            proof,
            Mode::Poprf,
        )?;
        let unblinded = evaluation_element.0 * &CS::Group::invert_scalar(self.blind);
        let issued_element = CS::Group::serialize_elem(unblinded);
        server_evaluate_hash_input::<CS>(input, Some(info), issued_element)""")))

E("po_blind_evaluate_direct",
  F(po, ("""        let PoprfServerBatchEvaluatePrepareResult {
            mut prepared_evaluation_elements,
            prepared_tweak,
        } = self.batch_blind_evaluate_prepare(iter::once(blinded_element), info)?;

        let prepared_evaluation_element = prepared_evaluation_elements.next().unwrap();
        let prepared_evaluation_elements = core::array::from_ref(&prepared_evaluation_element);
""", """        let prepared_tweak = PoprfPreparedTweak::<CS>(compute_tweak::<CS>(self.sk, info)?);
        let inverse = CS::Group::invert_scalar(prepared_tweak.0);
        let prepared_evaluation_elements = [PreparedEvaluationElement(EvaluationElement(
            blinded_element.0 * &inverse,
        ))];
        let prepared_evaluation_elements = &prepared_evaluation_elements;
""")))

E("po_finish_loops",
  F(po, ("        let prepared_evaluation_elements: Vec<_> = prepared_evaluation_elements.collect();\n", """        let mut elements = Vec::with_capacity(prepared_evaluation_elements.size_hint().0);
        for element in prepared_evaluation_elements {
            elements.push(element);
        }
        let prepared_evaluation_elements = elements;
"""), ("        let messages: Vec<_> = messages.collect();\n", """        let mut finished = Vec::new();
        messages.for_each(|message| finished.push(message));
        let messages = finished;
""")))

E("po_messages_from_prepared",
  F(po, ("        let PoprfServerBatchEvaluateFinishResult { messages, proof } =\n", "        let PoprfServerBatchEvaluateFinishResult { proof, .. } =\n"),
    ("        let messages: Vec<_> = messages.collect();\n", """        let messages = prepared_evaluation_elements
            .iter()
            .map(|prepared| prepared.0.clone())
            .collect();
""")))

E("po_info_if_let",
  (po, lambda s: s.replace("    let info = info.unwrap_or_default();\n", "    let info = if let Some(info) = info { info } else { &[] };\n"), None))
E("po_info_map_or",
  (po, lambda s: s.replace("    let info = info.unwrap_or_default();\n", "    let info: &[u8] = info.map_or(b\"\", |info| info);\n"), None))
E("po_info_unwrap_or",
  (po, lambda s: s.replace("    let info = info.unwrap_or_default();\n", "    let info = info.unwrap_or(&[]);\n"), None))

E("po_commuted",
  F(po, ("    let tweaked_key = t + &pk;", "    let tweaked_key = pk + &t;"), ("    let t = sk + &m;", "    let t = m + &sk;")))

E("po_tweak_result_type",
  F(po, ("        let tweak = compute_tweak::<CS>(self.sk, info)?;\n\n        Ok(PoprfServerBatchEvaluatePrepareResult {", """        let prepared_tweak = self.tweak(info)?;
        let tweak = prepared_tweak.0;

        Ok(PoprfServerBatchEvaluatePrepareResult {"""),
    ("            prepared_tweak: PoprfPreparedTweak(tweak),\n", "            prepared_tweak,\n"),
    ("        let tweak = compute_tweak::<CS>(self.sk, info)?;\n\n        ", "        let PoprfPreparedTweak(ref tweak) = self.tweak(info)?;\n\n        "),
    ("input_element * &CS::Group::invert_scalar(tweak);", "input_element * &CS::Group::invert_scalar(*tweak);"),
    ("    /// Retrieves the server's public key\n", """    fn tweak(&self, info: Option<&[u8]>) -> Result<PoprfPreparedTweak<CS>> {
        compute_tweak::<CS>(self.sk, info).map(PoprfPreparedTweak)
    }

    /// Retrieves the server's public key
""")))

E("zeroize_locals",
  F(po, ("        rng.fill_bytes(&mut seed);\n\n        Self::new_from_seed(&seed, &[])", "        rng.fill_bytes(&mut seed);\n\n        let server = Self::new_from_seed(&seed, &[]);\n        zeroize::Zeroize::zeroize(&mut seed[..]);\n        server")),
  F(co, ("    let r = CS::Group::random_scalar(rng);\n", "    let mut r = CS::Group::random_scalar(rng);\n"),
    ("    Ok(Proof { c_scalar, s_scalar })\n", "    zeroize::Zeroize::zeroize(&mut r);\n\n    Ok(Proof { c_scalar, s_scalar })\n")))
E("debug_asserts",
  F(co, ("    let len = u16::try_from(c_slice.len()).map_err(|_| Error::Batch)?;\n", "    let len = u16::try_from(c_slice.len()).map_err(|_| Error::Batch)?;\n    debug_assert_eq!(usize::from(len), d_slice.len());\n"),
    ("    let hashed_point = hash_to_group::<CS>(input, mode)?;\n", "    let hashed_point = hash_to_group::<CS>(input, mode)?;\n    debug_assert!(input.len() <= u16::MAX.into());\n")))
E("server_ctor",
  F(vo, ("""        let pk = CS::Group::base_elem() * &sk;
        Ok(Self { sk, pk })""", "        Ok(Self::from_secret(sk))"),
    ("""        let (sk, pk) = derive_keypair::<CS>(seed, info, Mode::Voprf)?;
        Ok(Self { sk, pk })
    }
""", """        crate::common::derive_key_internal::<CS>(seed, info, Mode::Voprf).map(Self::from_secret)
    }

    fn from_secret(sk: <CS::Group as Group>::Scalar) -> Self {
        let pk = CS::Group::base_elem() * &sk;
        Self { sk, pk }
    }
"""), ("    derive_keypair, deterministic", "    deterministic")))
E("unblind_fn",
  F(vo, ("    Ok(blinds\n        .zip(messages)\n        .map(|(blind, x)| x.0 * &CS::Group::invert_scalar(blind)))\n}\n", """    Ok(blinds.zip(messages).map(unblind::<CS>))
}

fn unblind<CS: CipherSuite>(
    (blind, message): (<CS::Group as Group>::Scalar, &EvaluationElement<CS>),
) -> <CS::Group as Group>::Elem
""" + W + """{
    let inverse = CS::Group::invert_scalar(blind);
    message.0 * &inverse
}
""")))
E("blind_result_first",
  F(vo, ("""        let blinded_element = deterministic_blind_unchecked::<CS>(input, &blind, Mode::Voprf)?;
        Ok(VoprfClientBlindResult {
            state: Self {
                blind,
                blinded_element,
            },
            message: BlindedElement(blinded_element),
        })""", """        let message =
            deterministic_blind_unchecked::<CS>(input, &blind, Mode::Voprf).map(BlindedElement)?;
        let state = Self {
            blinded_element: message.0,
            blind,
        };
        Ok(VoprfClientBlindResult { message, state })""")))
E("verify_closure",
  F(vo, ("    let g = CS::Group::base_elem();\n\n    let blinds", "    let blinds"),
    ("""    verify_proof(
        g,
        pk,
        blinded_elements,
        evaluation_elements,
        proof,
        Mode::Voprf,
    )?;

    Ok(blinds
        .zip(messages)
        .map(|(blind, x)| x.0 * &CS::Group::invert_scalar(blind)))""", """    let g = CS::Group::base_elem();
    verify_proof(g, pk, blinded_elements, evaluation_elements, proof, Mode::Voprf).map(|()| {
        let unblind: fn((_, &EvaluationElement<CS>)) -> _ =
            |(blind, x)| x.0 * &CS::Group::invert_scalar(blind);
        blinds.zip(messages).map(unblind)
    })""")))
E("evaluate_chain",
  F(vo, ("""        let input_element = hash_to_group::<CS>(input, Mode::Voprf)?;
        if CS::Group::is_identity_elem(input_element).into() {
            return Err(Error::Input);
        };
""", """        let input_element = hash_to_group::<CS>(input, Mode::Voprf).and_then(|element| {
            match bool::from(CS::Group::is_identity_elem(element)) {
                false => Ok(element),
                true => Err(Error::Input),
            }
        })?;
""")))
E("evaluate_as_blind",
  F(vo, ("""        let input_element = hash_to_group::<CS>(input, Mode::Voprf)?;
        if CS::Group::is_identity_elem(input_element).into() {
            return Err(Error::Input);
        };
""", ""), ("        let evaluated_element = input_element * &self.sk;\n", "        let evaluated_element = deterministic_blind_unchecked::<CS>(input, &self.sk, Mode::Voprf)?;\n"),
    ("generate_proof, hash_to_group, i2osp_2,", "generate_proof, i2osp_2,")))

# --- Dst, modes, labels -----------------------------------------------------------
E("dst_three_parts",
  F(co, ("""pub(crate) struct Dst<L: ArrayLength<u8>> {
    dst_1: GenericArray<u8, L>,
    dst_2: &'static str,
}""", """pub(crate) struct Dst<L: ArrayLength<u8>> {
    label: GenericArray<u8, L>,
    suite: &'static [u8],
}"""), ("        let dst_2 = CS::ID;\n", "        let suite = CS::ID.as_bytes();\n"), ("L::USIZE + dst_2.len() <= u16::MAX.into()", "suite.len() <= usize::from(u16::MAX) - L::USIZE"),
    ("        Self { dst_1, dst_2 }", "        Self { label: dst_1, suite }"), ("        [&self.dst_1, self.dst_2.as_bytes()]", "        [self.label.as_slice(), self.suite]"),
    ("u16::try_from(L::USIZE + self.dst_2.len())", "u16::try_from(self.label.len() + self.suite.len())")))
E("dst_array_fill",
  F(co, ("""        let par_2 = GenericArray::from(STR_OPRF)
            .concat([mode.to_u8()].into())
            .concat([b'-'].into());

        let dst_1 = par_1.concat(par_2);
""", """        let mut context = [0_u8; 9];
        context[..7].copy_from_slice(&STR_OPRF);
        context[7] = mode.to_u8();
        context[8] = b'-';

        let dst_1 = par_1.concat(GenericArray::from(context));
""")))
E("dst_array_literal",
  F(co, ("""        let par_2 = GenericArray::from(STR_OPRF)
            .concat([mode.to_u8()].into())
            .concat([b'-'].into());
""", """        let [o, p, r, f, v, one, dash] = STR_OPRF;
        let par_2 = GenericArray::from([o, p, r, f, v, one, dash, mode.to_u8(), b'-']);
""")))
E("mode_const",
  F(co, ("    pub fn to_u8(self) -> u8 {\n        match self {\n            Mode::Oprf => 0,\n            Mode::Voprf => 1,\n            Mode::Poprf => 2,\n        }\n    }", """    pub fn to_u8(self) -> u8 {
        const MODE_OPRF: u8 = 0x00;
        const MODE_VOPRF: u8 = 0x01;
        const MODE_POPRF: u8 = 0x02;

        if let Mode::Oprf = self {
            return MODE_OPRF;
        }
        if matches!(self, Mode::Voprf) {
            return MODE_VOPRF;
        }
        MODE_POPRF
    }""")))
E("labels_slices",
  F(co, ("pub(crate) const STR_FINALIZE: [u8; 8] = *b\"Finalize\";", "pub(crate) const STR_FINALIZE: &[u8] = b\"Finalize\";"),
    ("pub(crate) const STR_COMPOSITE: [u8; 9] = *b\"Composite\";", "const STR_COMPOSITE: &[u8] = \"Composite\".as_bytes();"),
    ("            &STR_COMPOSITE,\n", "            STR_COMPOSITE,\n")))
E("elem_len_fn",
  (co, lambda s: s.replace("<CS::Group as Group>::ElemLen::U16.to_be_bytes()", "elem_len::<CS>()").replace("///////////////////////\n// Utility Functions //", """/// Length prefix of a serialized element.
fn elem_len<CS: CipherSuite>() -> [u8; 2]
""" + W + """{
    let len = u16::try_from(<CS::Group as Group>::ElemLen::USIZE).expect("elements are short");
    len.to_be_bytes()
}

///////////////////////
// Utility Functions //"""), None))
del C["elem_len_fn"]
E("elem_len_helper",
  (co, lambda s: s.replace("<CS::Group as Group>::ElemLen::U16.to_be_bytes()", "elem_len::<CS>()").replace("///////////////////////\n// Utility Functions //", """/// Length prefix of a serialized element.
const fn elem_len<CS: CipherSuite>() -> [u8; 2]
""" + W + """{
    <<CS::Group as Group>::ElemLen as Unsigned>::U16.to_be_bytes()
}

///////////////////////
// Utility Functions //"""), None))
E("error_from",
  F(co, ("    i2osp_2(input.len()).map_err(|_| Error::Input)?;\n\n    let dst", "    let InputLen(_) = InputLen::new(input)?;\n\n    let dst"),
    ("        .chain_update(i2osp_2(input.as_ref().len()).map_err(|_| Error::Input)?)\n", "        .chain_update(InputLen::new(input)?.0)\n"),
    ("///////////////////////\n// Utility Functions //", """struct InputLen([u8; 2]);

impl InputLen {
    fn new(input: &[u8]) -> Result<Self> {
        match u16::try_from(input.len()) {
            Ok(len) => Ok(Self(len.to_be_bytes())),
            Err(_) => Err(Error::Input),
        }
    }
}

///////////////////////
// Utility Functions //""")))
E("derive_control_flow",
  F(co, ("    for counter in 0_u8..=u8::MAX {\n", "    let found = (0_u8..=u8::MAX).try_for_each(|counter| {\n"),
    ("        .map_err(|_| Error::DeriveKeyPair)?;\n\n        if !bool::from(CS::Group::is_zero_scalar(sk_s)) {\n            return Ok(sk_s);\n        }\n    }\n\n    Err(Error::Protocol)\n",
     """        .map_err(|_| ControlFlow::Break(Err(Error::DeriveKeyPair)));

        match sk_s {
            Ok(sk_s) if bool::from(CS::Group::is_zero_scalar(sk_s)) => ControlFlow::Continue(()),
            Ok(sk_s) => ControlFlow::Break(Ok(sk_s)),
            Err(error) => error,
        }
    });

    match found {
        ControlFlow::Break(result) => result,
        ControlFlow::Continue(()) => Err(Error::Protocol),
    }
"""), ("use core::ops::Add;", "use core::ops::{Add, ControlFlow};")))
E("derive_parts",
  F(co, ("            &[seed, &info_len, info, &counter.to_be_bytes()],\n", "            &[seed, &info_len, info, core::slice::from_ref(&counter)],\n")))
E("derive_one_error",
  F(co, ("    let info_len = i2osp_2(info.len()).map_err(|_| Error::DeriveKeyPair)?;\n", "    let info_len = match i2osp_2(info.len()) {\n        Ok(info_len) => info_len,\n        Err(InternalError::I2osp | InternalError::Input) => return Err(Error::DeriveKeyPair),\n    };\n")))
E("blind_by_value",
  F(co, ("    blind: &<CS::Group as Group>::Scalar,\n", "    blind: <CS::Group as Group>::Scalar,\n"), ("    Ok(hashed_point * blind)\n", "    Ok(hashed_point * &blind)\n")),
  F(op, ("(input, &blind, Mode::Oprf)", "(input, blind, Mode::Oprf)")), F(vo, ("(input, &blind, Mode::Voprf)", "(input, blind, Mode::Voprf)")), F(po, ("(input, &blind, Mode::Poprf)", "(input, blind, Mode::Poprf)")))
E("proof_ctor",
  F(co, ("    Ok(Proof { c_scalar, s_scalar })\n", "    let c_k = k * &c_scalar;\n    let proof = Proof::<CS> {\n        s_scalar: r - &c_k,\n        c_scalar,\n    };\n    Ok(proof)\n"), ("    let s_scalar = r - &(c_scalar * &k);\n", "")))
E("verify_result_helper",
  F(co, ("""    match c.ct_eq(&proof.c_scalar).into() {
        true => Ok(()),
        false => Err(Error::ProofVerification),
    }""", """    ensure(c.ct_eq(&proof.c_scalar), Error::ProofVerification)"""),
    ("    if CS::Group::is_identity_elem(hashed_point).into() {\n        return Err(Error::Input);\n    };\n", "    ensure(!CS::Group::is_identity_elem(hashed_point), Error::Input)?;\n"),
    ("///////////////////////\n// Utility Functions //", """fn ensure(condition: subtle::Choice, error: Error) -> Result<()> {
    if bool::from(condition) {
        Ok(())
    } else {
        Err(error)
    }
}

///////////////////////
// Utility Functions //""")))

# --- serialization ------------------------------------------------------------------
DECODE = """
trait Decode<G: Group>: Sized {
    fn decode(input: &mut &[u8]) -> Result<Self>;
}

struct S<G: Group>(G::Scalar);
struct P<G: Group>(G::Elem);

impl<G: Group> Decode<G> for S<G> {
    fn decode(input: &mut &[u8]) -> Result<Self> {
        deserialize_scalar::<G>(input).map(Self)
    }
}

impl<G: Group> Decode<G> for P<G> {
    fn decode(input: &mut &[u8]) -> Result<Self> {
        deserialize_elem::<G>(input).map(Self)
    }
}

fn decode_pair<G: Group, A: Decode<G>, B: Decode<G>>(mut input: &[u8]) -> Result<(A, B)> {
    Ok((A::decode(&mut input)?, B::decode(&mut input)?))
}

fn deserialize_elem<G: Group>("""
E("decode_trait",
  F(se, ("\nfn deserialize_elem<G: Group>(", DECODE),
    ("    pub fn deserialize(mut input: &[u8]) -> Result<Self> {\n        let c_scalar = deserialize_scalar::<CS::Group>(&mut input)?;\n        let s_scalar = deserialize_scalar::<CS::Group>(&mut input)?;\n", "    pub fn deserialize(input: &[u8]) -> Result<Self> {\n        let (S(c_scalar), S(s_scalar)) = decode_pair::<CS::Group, _, _>(input)?;\n"),
    ("    pub fn deserialize(mut input: &[u8]) -> Result<Self> {\n        let blind = deserialize_scalar::<CS::Group>(&mut input)?;\n        let blinded_element = deserialize_elem::<CS::Group>(&mut input)?;\n", "    pub fn deserialize(input: &[u8]) -> Result<Self> {\n        let (S(blind), P(blinded_element)) = decode_pair::<CS::Group, _, _>(input)?;\n", 2)))
def ser_macro(s):
    for t in ("BlindedElement", "EvaluationElement"):
        i = s.index("impl<CS: CipherSuite> %s<CS>" % t)
        j = s.index("\n}\n", i) + 3
        s = s[:i] + "element_message!(%s, %sLen);\n" % (t, t) + s[j:]
    i = s.index("/// Length of [`OprfClient`]")
    return s[:i] + """macro_rules! element_message {
    ($type:ident, $len:ident) => {
        impl<CS: CipherSuite> $type<CS>
        where
            <CS::Hash as OutputSizeUser>::OutputSize:
                IsLess<U256> + IsLessOrEqual<<CS::Hash as BlockSizeUser>::BlockSize>,
        {
            /// Serialization into bytes
            pub fn serialize(&self) -> GenericArray<u8, $len<CS>> {
                CS::Group::serialize_elem(self.0)
            }

            /// Deserialization from bytes
            ///
            /// # Errors
            /// [`Error::Deserialization`] if failed to deserialize `input`.
            pub fn deserialize(mut input: &[u8]) -> Result<Self> {
                deserialize_elem::<CS::Group>(&mut input).map(Self)
            }
        }
    };
}

""" + s[i:]


E("ser_macro", (se, ser_macro, None))
E("take_free_fn",
  (se, lambda s: re.sub(r"trait SliceExt \{.*?\n\}\n\nimpl<T> SliceExt for \[T\] \{\n    fn take_ext<'a>.*?\n    \}\n\}\n", """fn take<'a>(input: &mut &'a [u8], n: usize) -> Option<&'a [u8]> {
    let front = input.get(..n)?;
    *input = &input[n..];
    Some(front)
}
""", s, flags=re.S).replace("""    let input = input
        .take_ext(G::ElemLen::USIZE)
        .ok_or(Error::Deserialization)?;
    G::deserialize_elem(input)""", "    take(input, G::ElemLen::USIZE)\n        .ok_or(Error::Deserialization)\n        .and_then(G::deserialize_elem)").replace("""    let input = input
        .take_ext(G::ScalarLen::USIZE)
        .ok_or(Error::Deserialization)?;
    G::deserialize_scalar(input)""", "    take(input, G::ScalarLen::USIZE)\n        .ok_or(Error::Deserialization)\n        .and_then(G::deserialize_scalar)"), None))
E("take_mem",
  (se, lambda s: must(s, "        let (front, back) = self.split_at(take);\n        *self = back;\n        Some(front)", "        let (front, back) = core::mem::take(self).split_at(take);\n        *self = back;\n        Some(front)"), None))
E("take_fixed_offsets",
  F(se, ("""        let c_scalar = deserialize_scalar::<CS::Group>(&mut input)?;
        let s_scalar = deserialize_scalar::<CS::Group>(&mut input)?;
""", """        let len = <CS::Group as Group>::ScalarLen::USIZE;
        let field = |from: usize| {
            input
                .get(from..from + len)
                .ok_or(Error::Deserialization)
                .and_then(CS::Group::deserialize_scalar)
        };
        let c_scalar = field(0)?;
        let s_scalar = field(len)?;
"""), ("    pub fn deserialize(mut input: &[u8]) -> Result<Self> {\n        let c_scalar", "    pub fn deserialize(input: &[u8]) -> Result<Self> {\n        let c_scalar") if False else ("ProofLen<CS>: ArrayLength<u8>,", "ProofLen<CS>: ArrayLength<u8>,")))
E("ser_let",
  (se, lambda s: s.replace("        CS::Group::serialize_scalar(self.sk).concat(CS::Group::serialize_elem(self.pk))", "        let sk = CS::Group::serialize_scalar(self.sk);\n        let pk = CS::Group::serialize_elem(self.pk);\n        sk.concat(pk)"), None))
E("ser_destructure",
  F(se, ("        CS::Group::serialize_scalar(self.c_scalar)\n            .concat(CS::Group::serialize_scalar(self.s_scalar))", "        let Self { c_scalar, s_scalar } = self;\n        let [c, s] = [c_scalar, s_scalar].map(|scalar| CS::Group::serialize_scalar(*scalar));\n        Concat::concat(c, s)")))
E("ser_default_copy",
  F(se, ("        CS::Group::serialize_scalar(self.c_scalar)\n            .concat(CS::Group::serialize_scalar(self.s_scalar))", "        let mut output = GenericArray::<u8, ProofLen<CS>>::default();\n        let (c, s) = output.split_at_mut(<CS::Group as Group>::ScalarLen::USIZE);\n        c.copy_from_slice(&CS::Group::serialize_scalar(self.c_scalar));\n        s.copy_from_slice(&CS::Group::serialize_scalar(self.s_scalar));\n        output")))
E("serde_match",
  (se, lambda s: s.replace("                .and_then(|bytes| G::deserialize_elem(&bytes).map_err(D::Error::custom))", "                .and_then(|bytes| match G::deserialize_elem(bytes.as_slice()) {\n                    Ok(elem) => Ok(elem),\n                    Err(error) => Err(Error::custom(error)),\n                })"), None))
E("serde_ser_ref",
  (se, lambda s: s.replace("            G::serialize_scalar(*self_).serialize(serializer)", "            let bytes: GenericArray<u8, G::ScalarLen> = G::serialize_scalar(*self_);\n            Serialize::serialize(&bytes, serializer)"), None))

# --- groups ------------------------------------------------------------------------
E("ri_repeat_with",
  (ri, lambda s: re.sub(r"        loop \{\n            let scalar = Scalar::random\(rng\);.*?\n        \}\n    \}\n", """        core::iter::repeat_with(|| Scalar::random(rng))
            .find(|scalar| *scalar != Scalar::ZERO)
            .unwrap()
    }
""", s, flags=re.S), None))
E("ri_random_do",
  (ri, lambda s: re.sub(r"        loop \{\n            let scalar = Scalar::random\(rng\);.*?\n        \}\n    \}\n", """        let mut scalar = Scalar::random(rng);
        while bool::from(Self::is_zero_scalar(scalar)) {
            scalar = Scalar::random(rng);
        }
        scalar
    }
""", s, flags=re.S), None))
E("ri_identity_is",
  F(ri, ("            .filter(|point| point != &RistrettoPoint::identity())\n", "            .filter(|point| !bool::from(Self::is_identity_elem(*point)))\n")))
E("ri_identity_trait",
  F(ri, ("            .filter(|point| point != &RistrettoPoint::identity())\n", "            .filter(|point| !curve25519_dalek::traits::IsIdentity::is_identity(point))\n")))
E("ri_zero_via_trait",
  F(ri, ("            .filter(|scalar| scalar != &Scalar::ZERO)\n", "            .filter(|scalar| !bool::from(Self::is_zero_scalar(*scalar)))\n")))
E("ri_wide_array",
  F(ri, ("        let mut uniform_bytes = GenericArray::<_, U64>::default();\n        ExpandMsgXmd::<H>::expand_message(input, dst, 64)\n            .map_err(|_| InternalError::Input)?\n            .fill_bytes(&mut uniform_bytes);\n\n        Ok(Scalar::from_bytes_mod_order_wide(&uniform_bytes.into()))",
     "        let mut uniform_bytes = [0; 64];\n        let mut expander = ExpandMsgXmd::<H>::expand_message(input, dst, uniform_bytes.len())\n            .map_err(|_| InternalError::Input)?;\n        expander.fill_bytes(&mut uniform_bytes);\n\n        Ok(Scalar::from_bytes_mod_order_wide(&uniform_bytes))")))
E("ec_nonzero",
  F(ec, ("        *SecretKey::<Self>::random(rng).to_nonzero_scalar()", "        *elliptic_curve::NonZeroScalar::<Self>::random(rng)")))
E("ec_loop_random",
  F(ec, ("        *SecretKey::<Self>::random(rng).to_nonzero_scalar()", "        loop {\n            let scalar = Scalar::<Self>::random(&mut *rng);\n            if !bool::from(scalar.is_zero()) {\n                return scalar;\n            }\n        }")))
E("ec_clone_identity",
  F(ec, ("        let mut result = GenericArray::default();\n        result[..bytes.len()].copy_from_slice(bytes);\n        result", "        let mut result = GenericArray::default();\n        let (encoding, _) = result.split_at_mut(bytes.len());\n        encoding.copy_from_slice(bytes);\n        result")))
E("ec_deser_match",
  F(ec, ("""        EncodedPoint::<Self>::from_bytes(element_bits)
            .ok()
            .filter(|point| point.is_compressed())
            .and_then(|point| Option::from(PublicKey::<Self>::from_encoded_point(&point)))
            .map(|public_key: PublicKey<Self>| public_key.to_projective())
            .ok_or(Error::Deserialization)""", """        let point = match EncodedPoint::<Self>::from_bytes(element_bits) {
            Ok(point) if point.is_compressed() => point,
            _ => return Err(Error::Deserialization),
        };
        let public_key: Option<PublicKey<Self>> = PublicKey::from_encoded_point(&point).into();
        match public_key {
            Some(public_key) => Ok(public_key.to_projective()),
            None => Err(Error::Deserialization),
        }""")))

# --- types --------------------------------------------------------------------------
E("type_alias",
  (vo, lambda s: s.replace("    pub(crate) blind: <CS::Group as Group>::Scalar,\n", "    pub(crate) blind: ScalarOf<CS>,\n").replace("//////////////////////\n// High-level API Structs //" if False else "/////////////////////////\n// API Implementations //", "type ScalarOf<CS> = <<CS as CipherSuite>::Group as Group>::Scalar;\n\n/////////////////////////\n// API Implementations //"), None))
E("inner_module",
  F(co, ("trait DigestExt {\n", "mod digest_ext {\n    use digest::Digest;\n\n    pub(super) trait DigestExt {\n"), ("impl<T> DigestExt for T\n", "    impl<T> DigestExt for T\n"),
    ("            self.update(data)\n        }\n\n        self\n    }\n}\n", "            self.update(data)\n        }\n\n        self\n    }\n}\n}\nuse digest_ext::DigestExt;\n")))
E("moved_tweak",
  (po, lambda s: moved(s), None))


def moved(s):
    i = s.index("/// Composes the inner function")if "/// Composes the inner function" in s else s.index("fn compute_tweak<")
    i = s.index("fn compute_tweak<")
    i = s.rindex("\n\n", 0, i) + 2
    j = s.index("type PoprfUnblindResult<")
    j = s.rindex("}\n", 0, j) + 2
    body = s[i:j]
    return s[:i] + "mod tweak {\n    use super::*;\n\n" + body.replace("fn compute_tweak<", "pub(super) fn compute_tweak<") + "}\nuse tweak::compute_tweak;\n" + s[j:]


E("field_order",
  F(co, ("""    #[cfg_attr(feature = "serde", serde(with = "Scalar::<CS::Group>"))]
    pub(crate) c_scalar: <CS::Group as Group>::Scalar,
    #[cfg_attr(feature = "serde", serde(with = "Scalar::<CS::Group>"))]
    pub(crate) s_scalar: <CS::Group as Group>::Scalar,
""", """    #[cfg_attr(feature = "serde", serde(with = "Scalar::<CS::Group>"))]
    pub(crate) c_scalar: <CS::Group as Group>::Scalar,

    /// The response
    #[cfg_attr(feature = "serde", serde(with = "crate::serialization::serde::Scalar::<CS::Group>"))]
    pub(crate) s_scalar: <CS::Group as Group>::Scalar,
""")))
E("derive_split",
  (co, lambda s: s.replace("#[derive_where(Clone, ZeroizeOnDrop)]\n", "#[derive_where(Clone)]\n#[derive_where(ZeroizeOnDrop)]\n"), None))
E("manual_eq",
  F(op, ("#[derive_where(Debug, Eq, Hash, Ord, PartialEq, PartialOrd; <CS::Group as Group>::Scalar)]\n#[cfg_attr(\n    feature = \"serde\",\n    derive(serde::Deserialize, serde::Serialize),\n    serde(bound = \"\")\n)]\npub struct OprfServer", "#[derive_where(Debug, Eq, Hash, Ord, PartialOrd; <CS::Group as Group>::Scalar)]\n#[cfg_attr(\n    feature = \"serde\",\n    derive(serde::Deserialize, serde::Serialize),\n    serde(bound = \"\")\n)]\npub struct OprfServer"),
    ("/////////////////////////\n// API Implementations //", """impl<CS: CipherSuite> PartialEq for OprfServer<CS>
where
    <CS::Hash as OutputSizeUser>::OutputSize:
        IsLess<U256> + IsLessOrEqual<<CS::Hash as BlockSizeUser>::BlockSize>,
    <CS::Group as Group>::Scalar: PartialEq,
{
    fn eq(&self, other: &Self) -> bool {
        let Self { sk } = self;
        *sk == other.sk
    }
}

/////////////////////////
// API Implementations //""")))
E("manual_hash",
  F(co, ("#[derive_where(Debug, Eq, Hash, Ord, PartialEq, PartialOrd; <CS::Group as Group>::Scalar)]", "#[derive_where(Debug, Eq, Ord, PartialEq, PartialOrd; <CS::Group as Group>::Scalar)]"),
    ("/////////////////////\n// Proof Functions //", """impl<CS: CipherSuite> core::hash::Hash for Proof<CS>
where
    <CS::Hash as OutputSizeUser>::OutputSize:
        IsLess<U256> + IsLessOrEqual<<CS::Hash as BlockSizeUser>::BlockSize>,
    <CS::Group as Group>::Scalar: core::hash::Hash,
{
    fn hash<H: core::hash::Hasher>(&self, state: &mut H) {
        [&self.c_scalar, &self.s_scalar]
            .iter()
            .for_each(|scalar| scalar.hash(state));
    }
}

/////////////////////
// Proof Functions //""")))
E("manual_zeroize",
  F(co, ("#[derive_where(Clone, ZeroizeOnDrop)]\n#[derive_where(Debug, Eq, Hash, Ord, PartialEq, PartialOrd; <CS::Group as Group>::Scalar)]", "#[derive_where(Clone)]\n#[derive_where(Debug, Eq, Hash, Ord, PartialEq, PartialOrd; <CS::Group as Group>::Scalar)]"),
    ("/////////////////////\n// Proof Functions //", """impl<CS: CipherSuite> Drop for Proof<CS>
""" + W + """{
    fn drop(&mut self) {
        use zeroize::Zeroize;

        let Self { c_scalar, s_scalar } = self;
        for scalar in [c_scalar, s_scalar] {
            scalar.zeroize();
        }
    }
}

/////////////////////
// Proof Functions //""")))

"""Tenth refactor corpus: encodings, group backends, OPRF and POPRF."""
from refactors8 import F, co, op, vo, po, se, ec, ri, gm, li, er, cs  # noqa: F401

C = {}


def E(name, *edits):
    C[name] = list(edits)


DE = """    let input = input
        .take_ext(G::ElemLen::USIZE)
        .ok_or(Error::Deserialization)?;
    G::deserialize_elem(input)
"""
DS = DE.replace("Elem", "Scalar").replace("_elem", "_scalar")
TAKE = """        if take > self.len() {
            return None;
        }

        let (front, back) = self.split_at(take);
        *self = back;
        Some(front)
"""
E("se_take_checked", F(se, (TAKE, """        let (front, back) = self.split_at_checked(take)?;
        *self = back;
        Some(front)
""")))
E("se_take_get", F(se, (TAKE, """        let front = self.get(..take)?;
        *self = &self[take..];
        Some(front)
""")))
E("se_take_mem", F(se, (TAKE, """        let whole = core::mem::take(self);
        match whole.len().checked_sub(take) {
            Some(_) => {
                let (front, back) = whole.split_at(take);
                *self = back;
                Some(front)
            }
            None => {
                *self = whole;
                None
            }
        }
""")))
E("se_take_split_off", F(se, (TAKE, """        self.split_off(..take)
""")))
E("se_deser_question", F(se, (DE, """    let Some(input) = input.take_ext(G::ElemLen::USIZE) else {
        return Err(Error::Deserialization);
    };
    G::deserialize_elem(input)
"""), (DS, """    match input.take_ext(G::ScalarLen::USIZE) {
        None => Err(Error::Deserialization),
        Some(input) => G::deserialize_scalar(input),
    }
""")))
E("se_deser_generic_reader", F(se, (DE, "    read(input, G::ElemLen::USIZE, G::deserialize_elem)\n"), (DS, "    read(input, G::ScalarLen::USIZE, G::deserialize_scalar)\n"),
  ("trait SliceExt {", """fn read<T>(input: &mut &[u8], len: usize, decode: fn(&[u8]) -> Result<T>) -> Result<T> {
    input.take_ext(len).ok_or(Error::Deserialization).and_then(decode)
}

trait SliceExt {""")))
E("se_client_and_then", F(se, ("""        let blind = deserialize_scalar::<CS::Group>(&mut input)?;
        let blinded_element = deserialize_elem::<CS::Group>(&mut input)?;

        Ok(Self {
            blind,
            blinded_element,
        })
""", """        deserialize_scalar::<CS::Group>(&mut input).and_then(|blind| {
            deserialize_elem::<CS::Group>(&mut input).map(|blinded_element| Self {
                blind,
                blinded_element,
            })
        })
""", 2)))
E("se_proof_array", F(se, ("""        let c_scalar = deserialize_scalar::<CS::Group>(&mut input)?;
        let s_scalar = deserialize_scalar::<CS::Group>(&mut input)?;

        Ok(Proof { c_scalar, s_scalar })
""", """        let mut next = || deserialize_scalar::<CS::Group>(&mut input);

        Ok(Proof {
            c_scalar: next()?,
            s_scalar: next()?,
        })
""")))
E("se_elem_map", F(se, ("""        let value = deserialize_elem::<CS::Group>(&mut input)?;

        Ok(Self(value))
""", "        deserialize_elem::<CS::Group>(&mut input).map(Self)\n", 2)))
E("se_server_shared", F(se, ("        CS::Group::serialize_scalar(self.blind)\n    }", "        let Self { blind, .. } = self;\n        CS::Group::serialize_scalar(*blind)\n    }")))
E("se_serde_map_err", F(se, ("""            GenericArray::<_, G::ElemLen>::deserialize(deserializer)
                .and_then(|bytes| G::deserialize_elem(&bytes).map_err(D::Error::custom))
""", """            let bytes: GenericArray<u8, G::ElemLen> = Deserialize::deserialize(deserializer)?;
            match G::deserialize_elem(bytes.as_slice()) {
                Ok(elem) => Ok(elem),
                Err(error) => Err(D::Error::custom(error)),
            }
"""), ("            G::serialize_scalar(*self_).serialize(serializer)\n", "            let bytes = G::serialize_scalar(*self_);\n            Serialize::serialize(&bytes, serializer)\n")))

# P-curves
DEC = """        EncodedPoint::<Self>::from_bytes(element_bits)
            .ok()
            .filter(|point| point.is_compressed())
            .and_then(|point| Option::from(PublicKey::<Self>::from_encoded_point(&point)))
            .map(|public_key: PublicKey<Self>| public_key.to_projective())
            .ok_or(Error::Deserialization)
"""
E("ec_deser_steps", F(ec, (DEC, """        let point =
            EncodedPoint::<Self>::from_bytes(element_bits).map_err(|_| Error::Deserialization)?;
        if !point.is_compressed() {
            return Err(Error::Deserialization);
        }
        let key: Option<PublicKey<Self>> = PublicKey::<Self>::from_encoded_point(&point).into();
        match key {
            Some(key) => Ok(key.to_projective()),
            None => Err(Error::Deserialization),
        }
""")))
E("ec_deser_ctoption", F(ec, (DEC, """        let point = match EncodedPoint::<Self>::from_bytes(element_bits) {
            Ok(point) if point.is_compressed() => point,
            _ => return Err(Error::Deserialization),
        };
        let key = PublicKey::<Self>::from_encoded_point(&point);
        if bool::from(key.is_some()) {
            Ok(key.unwrap().to_projective())
        } else {
            Err(Error::Deserialization)
        }
""")))
E("ec_deser_sec1", F(ec, (DEC, """        if element_bits.len() != Self::ElemLen::USIZE {
            return Err(Error::Deserialization);
        }
        EncodedPoint::<Self>::from_bytes(element_bits)
            .ok()
            .filter(|point| point.is_compressed())
            .and_then(|point| Option::from(PublicKey::<Self>::from_encoded_point(&point)))
            .map(|public_key: PublicKey<Self>| public_key.to_projective())
            .ok_or(Error::Deserialization)
""")))
SER = """        let bytes = elem.to_encoded_point(true);
        let bytes = bytes.as_bytes();
        let mut result = GenericArray::default();
        result[..bytes.len()].copy_from_slice(bytes);
        result
"""
E("ec_ser_zip", F(ec, (SER, """        let point = elem.to_encoded_point(true);
        let mut result = GenericArray::default();
        for (to, from) in result.iter_mut().zip(point.as_bytes()) {
            *to = *from;
        }
        result
""")))
E("ec_ser_split", F(ec, (SER, """        let point = elem.to_encoded_point(true);
        let mut result = GenericArray::<u8, Self::ElemLen>::default();
        let (head, _) = result.split_at_mut(point.len());
        head.copy_from_slice(point.as_bytes());
        result
""")))
E("ec_ser_get_mut", F(ec, (SER, """        let point = elem.to_encoded_point(true);
        let mut result: GenericArray<u8, Self::ElemLen> = Default::default();
        let n = point.as_bytes().len();
        if let Some(head) = result.get_mut(..n) {
            head.clone_from_slice(point.as_bytes());
        }
        result
""")))
E("ec_ser_generate", F(ec, (SER, """        use generic_array::sequence::GenericSequence;
        let point = elem.to_encoded_point(true);
        GenericArray::generate(|i| point.as_bytes().get(i).copied().unwrap_or_default())
""")))
E("ec_sk_match", F(ec, ("""        if scalar_bits.len() != Self::ScalarLen::USIZE {
            return Err(Error::Deserialization);
        }

        SecretKey::<Self>::from_slice(scalar_bits)
            .map(|secret_key| *secret_key.to_nonzero_scalar())
            .map_err(|_| Error::Deserialization)
""", """        match SecretKey::<Self>::from_slice(scalar_bits) {
            Ok(key) if scalar_bits.len() == Self::ScalarLen::USIZE => Ok(*key.to_nonzero_scalar()),
            _ => Err(Error::Deserialization),
        }
""")))
E("ec_sk_from_bytes", F(ec, ("""        if scalar_bits.len() != Self::ScalarLen::USIZE {
            return Err(Error::Deserialization);
        }

        SecretKey::<Self>::from_slice(scalar_bits)
            .map(|secret_key| *secret_key.to_nonzero_scalar())
            .map_err(|_| Error::Deserialization)
""", """        if scalar_bits.len() != Self::ScalarLen::USIZE {
            return Err(Error::Deserialization);
        }

        let bytes = GenericArray::from_slice(scalar_bits);
        let key = SecretKey::<Self>::from_bytes(bytes).map_err(|_| Error::Deserialization)?;
        Ok(*key.to_nonzero_scalar())
""")))
E("ec_random_nonzero", F(ec, ("        *SecretKey::<Self>::random(rng).to_nonzero_scalar()\n", "        let key = SecretKey::<Self>::random(rng);\n        let scalar = key.to_nonzero_scalar();\n        *scalar.as_ref()\n")))
E("ec_invert_expect", F(ec, ("        Option::from(scalar.invert()).unwrap()\n", "        let inverse: Option<Self::Scalar> = scalar.invert().into();\n        inverse.expect(\"zero is never stored\")\n")))
E("ec_invert_ct", F(ec, ("        Option::from(scalar.invert()).unwrap()\n", "        scalar.invert().unwrap()\n")))

# ristretto
UNI = """        let mut uniform_bytes = GenericArray::<_, U64>::default();
        ExpandMsgXmd::<H>::expand_message(input, dst, 64)
            .map_err(|_| InternalError::Input)?
            .fill_bytes(&mut uniform_bytes);

"""
E("ri_uniform_helper", F(ri, (UNI, "        let uniform_bytes = Self::uniform::<H>(input, dst)?;\n\n", 2), ("impl Group for Ristretto255 {", """impl Ristretto255 {
    /// 64 uniform bytes for either hash function.
    fn uniform<H>(input: &[&[u8]], dst: &[&[u8]]) -> Result<GenericArray<u8, U64>, InternalError>
    where
        H: BlockSizeUser + Default + FixedOutput + HashMarker,
        H::OutputSize: IsLess<U256> + IsLessOrEqual<H::BlockSize>,
    {
        let mut okm = GenericArray::default();
        match ExpandMsgXmd::<H>::expand_message(input, dst, okm.len()) {
            Ok(mut expander) => expander.fill_bytes(&mut okm),
            Err(_) => return Err(InternalError::Input),
        }
        Ok(okm)
    }
}

impl Group for Ristretto255 {""")))
E("ri_uniform_plain_array", F(ri, (UNI, """        let mut uniform_bytes = [0_u8; 64];
        ExpandMsgXmd::<H>::expand_message(input, dst, uniform_bytes.len())
            .map_err(|_| InternalError::Input)?
            .fill_bytes(&mut uniform_bytes);

""", 2), ("from_uniform_bytes(&uniform_bytes.into())", "from_uniform_bytes(&uniform_bytes)"), ("from_bytes_mod_order_wide(&uniform_bytes.into())", "from_bytes_mod_order_wide(&uniform_bytes)"),
  ("U32, U64}", "U32}") if "U32, U64}" in open("/repo/src/group/ristretto.rs").read() else ("U32", "U32", open("/repo/src/group/ristretto.rs").read().count("U32"))))
E("ri_random_while", F(ri, ("""        loop {
            let scalar = Scalar::random(rng);

            if scalar != Scalar::ZERO {
                break scalar;
            }
        }
""", """        let mut scalar = Scalar::random(rng);
        while scalar == Scalar::ZERO {
            scalar = Scalar::random(rng);
        }
        scalar
""")))
E("ri_random_from_fn", F(ri, ("""        loop {
            let scalar = Scalar::random(rng);

            if scalar != Scalar::ZERO {
                break scalar;
            }
        }
""", """        core::iter::repeat_with(|| Scalar::random(rng))
            .find(|scalar| !bool::from(Self::is_zero_scalar(*scalar)))
            .unwrap()
""")))
E("ri_deser_elem_steps", F(ri, ("""        CompressedRistretto::from_slice(element_bits)
            .map_err(|_| Error::Deserialization)?
            .decompress()
            .filter(|point| point != &RistrettoPoint::identity())
            .ok_or(Error::Deserialization)
""", """        let Ok(compressed) = CompressedRistretto::from_slice(element_bits) else {
            return Err(Error::Deserialization);
        };
        match compressed.decompress() {
            Some(point) if !bool::from(Self::is_identity_elem(point)) => Ok(point),
            _ => Err(Error::Deserialization),
        }
""")))
E("ri_deser_elem_bytes", F(ri, ("""        CompressedRistretto::from_slice(element_bits)
            .map_err(|_| Error::Deserialization)?
            .decompress()
            .filter(|point| point != &RistrettoPoint::identity())
            .ok_or(Error::Deserialization)
""", """        let bytes: [u8; 32] = element_bits.try_into().map_err(|_| Error::Deserialization)?;
        let point = CompressedRistretto(bytes).decompress().ok_or(Error::Deserialization)?;
        if point == RistrettoPoint::identity() {
            return Err(Error::Deserialization);
        }
        Ok(point)
""")))
E("ri_deser_scalar_steps", F(ri, ("""        scalar_bits
            .try_into()
            .ok()
            .and_then(|bytes| Scalar::from_canonical_bytes(bytes).into())
            .filter(|scalar| scalar != &Scalar::ZERO)
            .ok_or(Error::Deserialization)
""", """        let bytes = <[u8; 32]>::try_from(scalar_bits).map_err(|_| Error::Deserialization)?;
        let scalar: Option<Scalar> = Scalar::from_canonical_bytes(bytes).into();
        let scalar = scalar.ok_or(Error::Deserialization)?;
        if Self::is_zero_scalar(scalar).into() {
            Err(Error::Deserialization)
        } else {
            Ok(scalar)
        }
""")))
E("ri_deser_scalar_ct", F(ri, ("""        scalar_bits
            .try_into()
            .ok()
            .and_then(|bytes| Scalar::from_canonical_bytes(bytes).into())
            .filter(|scalar| scalar != &Scalar::ZERO)
            .ok_or(Error::Deserialization)
""", """        let bytes: [u8; 32] = scalar_bits.try_into().map_err(|_| Error::Deserialization)?;
        let scalar = Scalar::from_canonical_bytes(bytes);
        let usable = scalar.is_some() & !scalar.unwrap_or(Scalar::ZERO).ct_eq(&Scalar::ZERO);
        if bool::from(usable) {
            Ok(scalar.unwrap())
        } else {
            Err(Error::Deserialization)
        }
""")))
E("ri_base_basepoint_mul", F(ri, ("        elem.compress().to_bytes().into()\n", "        let compressed = elem.compress();\n        GenericArray::from(*compressed.as_bytes())\n")))
E("ri_ser_scalar_copy", F(ri, ("        scalar.to_bytes().into()\n", "        let mut out = GenericArray::default();\n        out.copy_from_slice(scalar.as_bytes());\n        out\n")))
E("gm_identity_ct", F(gm, ("        Self::identity_elem().ct_eq(&elem)\n", "        elem.ct_eq(&Self::identity_elem())\n")) if "Self::identity_elem().ct_eq(&elem)" in open("/repo/src/group/mod.rs").read() else F(co, ("    let hashed_point = hash_to_group::<CS>(input, mode)?;\n    if CS::Group::is_identity_elem(hashed_point).into() {", "    let hashed_point = hash_to_group::<CS>(input, mode)?;\n    if bool::from(CS::Group::is_identity_elem(hashed_point)) {")))

# OPRF and POPRF
E("op_finalize_direct", F(op, ("""        let mut outputs =
            finalize_after_unblind::<CS, _, _>(iter::once((input, unblinded_element)), &[]);
        outputs.next().unwrap()
""", """        server_evaluate_hash_input::<CS>(
            input,
            None,
            CS::Group::serialize_elem(unblinded_element),
        )
""")))
E("op_finalize_last", F(op, ("        outputs.next().unwrap()\n", "        match outputs.next() {\n            Some(output) => output,\n            None => Err(Error::Batch),\n        }\n")))
E("op_finalize_array", F(op, ("iter::once((input, unblinded_element))", "[(input, unblinded_element)].into_iter()")))
E("op_evaluate_via_blind", F(op, ("        let evaluated_element = input_element * &self.sk;\n", "        let EvaluationElement(evaluated_element) = self.blind_evaluate(&BlindedElement(input_element));\n")))
E("op_evaluate_shared", F(op, ("""        let input_element = hash_to_group::<CS>(input, Mode::Oprf)?;
        if CS::Group::is_identity_elem(input_element).into() {
            return Err(Error::Input);
        };
        let evaluated_element = input_element * &self.sk;
""", """        let evaluated_element = crate::common::deterministic_blind_unchecked::<CS>(input, &self.sk, Mode::Oprf)?;
""")))
E("op_filter_identity", F(op, ("""        let input_element = hash_to_group::<CS>(input, Mode::Oprf)?;
        if CS::Group::is_identity_elem(input_element).into() {
            return Err(Error::Input);
        };
""", """        let input_element = hash_to_group::<CS>(input, Mode::Oprf)
            .ok()
            .filter(|element| !bool::from(CS::Group::is_identity_elem(*element)))
            .ok_or(Error::Input)?;
""")))
FRAME = """    let info_len = i2osp_2(info.len()).map_err(|_| Error::Info)?;
    let framed_info = [STR_INFO.as_slice(), &info_len, info];

    let dst = Dst::new::<CS, _, _>(STR_HASH_TO_SCALAR, Mode::Poprf);
    // This can't fail, the size of the `input` is known.
    let m = CS::Group::hash_to_scalar::<CS::Hash>(&framed_info, &dst.as_dst()).unwrap();
"""
E("po_info_scalar", F(po, (FRAME, "    let m = info_scalar::<CS>(info)?;\n", 2), ("type PoprfUnblindResult", """fn info_scalar<CS: CipherSuite>(info: &[u8]) -> Result<<CS::Group as Group>::Scalar>
where
    <CS::Hash as OutputSizeUser>::OutputSize:
        IsLess<U256> + IsLessOrEqual<<CS::Hash as BlockSizeUser>::BlockSize>,
{
""" + FRAME.replace("let m = ", "let m = ") + """
    Ok(m)
}

type PoprfUnblindResult""")))
E("po_info_const_dst", F(po, (FRAME, FRAME.replace("    let framed_info = [STR_INFO.as_slice(), &info_len, info];\n\n", "").replace("&framed_info", "&[&STR_INFO[..], &info_len[..], info]"), 2)))
E("po_tweak_filter", F(po, ("""    match bool::from(CS::Group::is_zero_scalar(t)) {
        true => Err(Error::Protocol),
        false => Ok(t),
    }
""", """    Some(t)
        .filter(|t| !bool::from(CS::Group::is_zero_scalar(*t)))
        .ok_or(Error::Protocol)
""")))
E("po_key_from_tweakless", F(po, ("    let t = CS::Group::base_elem() * &m;\n    let tweaked_key = t + &pk;\n", "    let tweaked_key = pk + &(CS::Group::base_elem() * &m);\n")))
E("po_finish_split_iter", F(po, ("""        let proof = generate_proof(
            rng,
            tweak,
            g,
            tweaked_key,
            prepared_evaluation_elements
                .into_iter()
                .map(|element| element.0 .0),
            blinded_elements.map(|element| element.0),
            Mode::Poprf,
        )?;
""", """        let evaluated = prepared_evaluation_elements
            .into_iter()
            .map(|PreparedEvaluationElement(EvaluationElement(e))| *e);
        let blinded = blinded_elements.map(|BlindedElement(e)| *e);
        let proof = generate_proof(rng, tweak, g, tweaked_key, evaluated, blinded, Mode::Poprf)?;
""")))
E("po_evaluate_tweak_first", F(po, ("        // None for info is treated the same as empty bytes\n        server_evaluate_hash_input::<CS>(input, Some(info.unwrap_or_default()), issued_element)\n", "        let info = match info {\n            Some(info) => info,\n            None => &[],\n        };\n        server_evaluate_hash_input::<CS>(input, Some(info), issued_element)\n")))
E("po_unblind_invert_early", F(po, ("""    Ok(blinds
        .zip(messages)
        .map(|(blind, x)| x.0 * &CS::Group::invert_scalar(blind)))
""", """    Ok(blinds.zip(messages).map(|(blind, EvaluationElement(element))| {
        let inverse = CS::Group::invert_scalar(blind);
        *element * &inverse
    }))
""")))

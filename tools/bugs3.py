"""Third quick bug corpus: NAME starts with the property the edit breaks."""
from bugs2 import F, co, op, vo, po, ec, ri, VO_ARGS  # noqa: F401

C = {}


def E(name, *edits):
    C[name] = list(edits)


# ------------------------------------------------------------------ C31
LOOP = ("    for counter in 0_u8..=u8::MAX {\n", "    let mut counter = 0_u8;\n    loop {\n")
TAIL = ("""            return Ok(sk_s);
        }
    }

    Err(Error::Protocol)
""", """            return Ok(sk_s);
        }
        counter = counter.wrapping_add(1);
    }
""")
E("C31_derive_wrap", F(co, LOOP, TAIL))
E("C31_random_hoisted", F(ri, ("""        loop {
            let scalar = Scalar::random(rng);

            if scalar != Scalar::ZERO {
                break scalar;
            }
        }
""", """        let scalar = Scalar::random(rng);
        while scalar == Scalar::ZERO {
            core::hint::spin_loop();
        }
        scalar
""")))
E("C31_update_skips_empty", F(co, ("""        for data in datas {
            self.update(data)
        }
""", """        let mut index = 0;
        while index < datas.len() {
            if datas[index].is_empty() {
                continue;
            }
            self.update(datas[index]);
            index += 1;
        }
""")))
E("C31_composite_counter", F(co, ("""    for (i, (c, d)) in (0..len).zip(c_slice.zip(d_slice)) {
""", """    let mut pairs = c_slice.zip(d_slice);
    let mut counter = 0_u8;
    while u16::from(counter) < len {
        let i = u16::from(counter);
        counter = counter.wrapping_add(1);
        let (c, d) = match pairs.next() {
            Some(pair) => pair,
            None => continue,
        };
""")))
E("C31_new_retries_seed", F(vo, ("""        // This can't fail as the hash output is type constrained.
        Self::new_from_seed(&seed, &[])
    }

    /// Produces a new instance of a [VoprfServer] using a supplied set of
    /// bytes to""", """        loop {
            // This can't fail as the hash output is type constrained.
            if let Ok(server) = Self::new_from_seed(&seed, &[]) {
                return Ok(server);
            }
        }
    }

    /// Produces a new instance of a [VoprfServer] using a supplied set of
    /// bytes to""")))
E("C31_tweak_nonzero", F(po, ("    let t = info_scalar", "    let t = info_scalar")) if False else F(ri, ("""        loop {
            let scalar = Scalar::random(rng);

            if scalar != Scalar::ZERO {
                break scalar;
            }
        }
""", """        let mut scalar = Scalar::random(rng);
        while scalar == Scalar::ZERO {
            scalar += scalar;
        }
        scalar
""")))
E("C31_derive_recursive", F(co, ("    for counter in 0_u8..=u8::MAX {\n", "    for counter in 0_u8..=u8::MAX - 1 {\n"),
  ("""            return Ok(sk_s);
        }
    }

    Err(Error::Protocol)
""", """            return Ok(sk_s);
        }
    }

    derive_key_internal::<CS>(seed, info, mode)
""")))
E("C31_clone_draw", F(ri, ("""            let scalar = Scalar::random(rng);

            if scalar != Scalar::ZERO {
                break scalar;
            }
""", """            let mut seed = [0; 64];
            rng.fill_bytes(&mut seed);
            let scalar = Scalar::from_bytes_mod_order_wide(&seed);

            while scalar == Scalar::ZERO {}
            break scalar;
""")))

KEYS = '    let dst = Dst::new::<CS, _, _>(STR_DERIVE_KEYPAIR, mode);\n\n    let info_len = i2osp_2(info.len()).map_err(|_| Error::DeriveKeyPair)?;\n'
for i, body in enumerate(("core::iter::repeat(()).for_each(drop);", "for _ in core::iter::repeat(()) {}", "loop {}", 
                          "while seed.len() == 7 {}", "let _ = (0..2_u8).cycle().find(|x| *x == 5);", "let _ = core::iter::repeat(0_u8).position(|x| x == 5);",
                          "let mut n = 1_u32; while n != 0 { n = n.wrapping_mul(3); }", "let mut n = seed.len(); while n != 1 { n = if n % 2 == 0 { n / 2 } else { n * 3 + 1 }; }")):
    E("C31_endless_%d" % i, F(co, (KEYS, KEYS + "    if seed.len() == 7 {\n        " + body + "\n    }\n")))

# ------------------------------------------------------------------ C30
E("C30_voprf_single_empty", F(vo, ("        let inputs = core::array::from_ref(&input);\n", """        if input.is_empty() {
            return Err(Error::Input);
        }

        let inputs = core::array::from_ref(&input);
""")))
E("C30_derive_key_empty_info", F(co, ("""    derive_key_internal::<CS>(seed, info, mode)
}

type DeriveKeypairResult""", """    let mode = if info.is_empty() && seed.is_empty() { Mode::Oprf } else { mode };
    derive_key_internal::<CS>(seed, info, mode)
}

type DeriveKeypairResult""")))
E("C30_unchecked_limit", F(op, ("""        blind: <CS::Group as Group>::Scalar,
    ) -> Result<OprfClientBlindResult<CS>> {
        Self::deterministic_blind_unchecked_inner(input, blind)
""", """        blind: <CS::Group as Group>::Scalar,
    ) -> Result<OprfClientBlindResult<CS>> {
        if input.is_empty() {
            return Err(Error::Input);
        }
        Self::deterministic_blind_unchecked_inner(input, blind)
""")))
E("C30_batch_alloc_limit", F(vo, ("""        let prepared_evaluation_elements = self
            .batch_blind_evaluate_prepare(blinded_elements.into_iter())
            .collect();
""", """        if blinded_elements.into_iter().len() > 0xfff {
            return Err(Error::Batch);
        }
        let prepared_evaluation_elements = self
            .batch_blind_evaluate_prepare(blinded_elements.into_iter())
            .collect();
""")))
E("C30_batch_alloc_empty", F(vo, ("""        let prepared_evaluation_elements = self
            .batch_blind_evaluate_prepare(blinded_elements.into_iter())
            .collect();
""", """        if blinded_elements.into_iter().len() == 0 {
            return Err(Error::Batch);
        }
        let prepared_evaluation_elements = self
            .batch_blind_evaluate_prepare(blinded_elements.into_iter())
            .collect();
""")))
E("C30_seed_trailing", F(vo, ("        let (sk, pk) = derive_keypair::<CS>(seed, info, Mode::Voprf)?;\n", """        let seed = match seed {
            [seed @ .., 0, 0] => seed,
            seed => seed,
        };
        let (sk, pk) = derive_keypair::<CS>(seed, info, Mode::Voprf)?;
""")))
E("C30_single_prepared_base", F(vo, ("        let prepared_evaluation_element = [prepared_evaluation_elements.next().unwrap()];\n", """        let mut prepared_evaluation_element = [prepared_evaluation_elements.next().unwrap()];
        if bool::from(CS::Group::is_identity_elem(blinded_element.0)) {
            let base = CS::Group::base_elem();
            prepared_evaluation_element = [PreparedEvaluationElement(EvaluationElement(base))];
        }
""")))
E("C30_poprf_single_info", F(po, ("        let messages = core::array::from_ref(evaluation_element);\n", """        let messages = core::array::from_ref(evaluation_element);
        let info = info.filter(|info| info.len() < 0x8000);
""")))
E("C30_oprf_new_short_seed", F(op, ("        let sk = derive_key_internal::<CS>(seed, info, Mode::Oprf)?;\n", """        let mode = if seed.len() == 1 { Mode::Voprf } else { Mode::Oprf };
        let sk = derive_key_internal::<CS>(seed, info, mode)?;
""")))

# ------------------------------------------------------------------ casts
E("C10_signed_length", F(co, ("    i2osp_2(input.len()).map_err(|_| Error::Input)?;\n", """    if input.len() as i16 == -1 || (input.len() as i32) > 0xffff {
        return Err(Error::Input);
    }
""")))
E("C10_signed_narrow", F(co, ("    i2osp_2(input.len()).map_err(|_| Error::Input)?;\n", """    if (input.len() as i32) > 0xffff {
        return Err(Error::Input);
    }
""")))

# ------------------------------------------------------------------ configurations
EVAL = "        EvaluationElement(blinded_element.0 * &self.sk)\n"
E("C22_three_conditions", F(op, (EVAL, """        #[cfg(all(feature = "danger", feature = "alloc", not(feature = "std")))]
        if CS::Group::is_zero_scalar(self.sk).into() {
            return EvaluationElement(blinded_element.0);
        }
        EvaluationElement(blinded_element.0 * &self.sk)
""")))
E("C22_cfg_macro", F(op, (EVAL, """        let neutral = cfg!(all(feature = "serde", feature = "danger", not(feature = "alloc")))
            && bool::from(CS::Group::is_zero_scalar(self.sk));
        if neutral {
            return EvaluationElement(blinded_element.0);
        }
        EvaluationElement(blinded_element.0 * &self.sk)
""")))
E("C06_release_no_alloc", F(op, ("        let input_element = hash_to_group::<CS>(input, Mode::Oprf)?;\n        if CS::Group::is_identity_elem", """        let mode = if cfg!(all(not(debug_assertions), not(feature = "alloc"))) { Mode::Voprf } else { Mode::Oprf };
        let input_element = hash_to_group::<CS>(input, mode)?;
        if CS::Group::is_identity_elem""")))

# ------------------------------------------------------------------ byte loops
ECB = "        result[..bytes.len()].copy_from_slice(bytes);\n        result\n"
E("C13_copy_skips_last", F(ec, (ECB, "        for i in 0..bytes.len() - 1 {\n            result[i] = bytes[i];\n        }\n        result\n")))
E("C13_copy_shifted", F(ec, (ECB, "        for i in 0..bytes.len() - 1 {\n            result[i + 1] = bytes[i];\n        }\n        result\n")))
E("C13_copy_reversed", F(ec, (ECB, "        for i in 0..bytes.len() {\n            result[i] = bytes[bytes.len() - 1 - i];\n        }\n        result\n")))
E("C13_copy_masked", F(ec, (ECB, "        for i in 0..bytes.len() {\n            result[i] = bytes[i] & 0x7f;\n        }\n        result\n")))
E("C13_copy_overwritten", F(ec, (ECB, "        for i in 0..bytes.len() {\n            result[0] = bytes[i];\n        }\n        result\n")))
MULTI_ = "        for data in datas {\n            self.update(data)\n        }\n"
E("C09_last_part_dropped", F(co, (MULTI_, "        let mut rest = datas;\n        while let [first, tail @ ..] = rest {\n            if tail.is_empty() && first.len() > 255 {\n                break;\n            }\n            self.update(first);\n            rest = tail;\n        }\n")))
PR = """        CS::Group::serialize_scalar(self.c_scalar)
            .concat(CS::Group::serialize_scalar(self.s_scalar))"""
E("C14_chain_swapped", F("serialization.rs", (PR, """        let c_bytes = CS::Group::serialize_scalar(self.c_scalar);
        let s_bytes = CS::Group::serialize_scalar(self.s_scalar);
        s_bytes.into_iter().chain(c_bytes).collect()""")))
E("C14_chain_short", F("serialization.rs", (PR, """        let c_bytes = CS::Group::serialize_scalar(self.c_scalar);
        let s_bytes = CS::Group::serialize_scalar(self.s_scalar);
        let mut bytes = GenericArray::<u8, ProofLen<CS>>::default();
        for (to, from) in bytes.iter_mut().zip(c_bytes.iter().chain(s_bytes.iter().skip(1))) {
            *to = *from;
        }
        bytes""")))
E("C11_successors_short", F(co, ("    for counter in 0_u8..=u8::MAX {\n", "    for counter in core::iter::successors(Some(0_u8), |counter| counter.checked_add(2)) {\n")))

"""Ninth refactor corpus: values with their own `Drop`, small state structs, early computation, other control flow."""
from refactors8 import F, co, op, vo, po, se, ec, ri, gm, li, er, cs, VERIFY_END, FOR, LENS, SEED  # noqa: F401

C = {}


def E(name, *edits):
    C[name] = list(edits)


CR = "type ComputeCompositesResult<CS> = (\n"
WIPE = """struct Wipe<'a, T: zeroize::Zeroize>(&'a mut T);

impl<T: zeroize::Zeroize> Drop for Wipe<'_, T> {
    fn drop(&mut self) {
        self.0.zeroize();
    }
}

"""
OWNW = """struct Secret<T: zeroize::Zeroize>(T);

impl<T: zeroize::Zeroize> Drop for Secret<T> {
    fn drop(&mut self) {
        self.0.zeroize();
    }
}

"""
R = "    let r = CS::Group::random_scalar(rng);\n    let t2 = a * &r;\n    let t3 = m * &r;\n"
SS = "    let s_scalar = r - &(c_scalar * &k);\n"

E("wipe_guard_r", F(co, (R, "    let mut r = CS::Group::random_scalar(rng);\n    let guard = Wipe(&mut r);\n    let t2 = a * &*guard.0;\n    let t3 = m * &*guard.0;\n"),
  (SS, "    let s_scalar = *guard.0 - &(c_scalar * &k);\n    drop(guard);\n"), (CR, WIPE + CR)))
E("wipe_guard_r_scope", F(co, (R, "    let mut r = CS::Group::random_scalar(rng);\n    let guard = Wipe(&mut r);\n    let t2 = a * &*guard.0;\n    let t3 = m * &*guard.0;\n"),
  (SS, "    let s_scalar = *guard.0 - &(c_scalar * &k);\n"), (CR, WIPE + CR)))
E("wipe_guard_opt", F(co, (R, "    let mut r = CS::Group::random_scalar(rng);\n    let t2 = a * &r;\n    let t3 = m * &r;\n"),
  (SS, SS + "    let _late = Some(Wipe(&mut r));\n"), (CR, WIPE + CR)))
E("owned_secret_r", F(co, (R, "    let r = Secret(CS::Group::random_scalar(rng));\n    let t2 = a * &r.0;\n    let t3 = m * &r.0;\n"),
  (SS, "    let s_scalar = r.0 - &(c_scalar * &k);\n"), (CR, OWNW + CR)))
E("owned_secret_tuple", F(co, (R, "    let (r, _spare) = (Secret(CS::Group::random_scalar(rng)), 0u8);\n    let t2 = a * &r.0;\n    let t3 = m * &r.0;\n"),
  (SS, "    let s_scalar = r.0 - &(c_scalar * &k);\n    drop(r);\n"), (CR, OWNW + CR)))
E("commit_on_drop", F(co, ("        m = c * &di + &m;\n", "        {\n            let mut acc = Commit { to: &mut m, val: c * &di };\n            acc.val = acc.val + &*acc.to;\n        }\n"),
  (CR, """struct Commit<'a, E: Copy> {
    to: &'a mut E,
    val: E,
}

impl<E: Copy> Drop for Commit<'_, E> {
    fn drop(&mut self) {
        *self.to = self.val;
    }
}

""" + CR)))
E("commit_on_drop_explicit", F(co, ("        m = c * &di + &m;\n", "        let sum = c * &di + &m;\n        drop(Commit { to: &mut m, val: Some(sum) });\n"),
  (CR, """struct Commit<'a, E: Copy> {
    to: &'a mut E,
    val: Option<E>,
}

impl<E: Copy> Drop for Commit<'_, E> {
    fn drop(&mut self) {
        if let Some(v) = self.val.take() {
            *self.to = v;
        }
    }
}

""" + CR)))
ACC = """struct Acc<G: Group> {
    m: G::Elem,
    z: Option<G::Elem>,
}

impl<G: Group> Acc<G> {
    fn new(with_z: bool) -> Self {
        Self {
            m: G::identity_elem(),
            z: with_z.then(G::identity_elem),
        }
    }

    fn push(&mut self, c: G::Elem, d: G::Elem, s: &G::Scalar) {
        self.m = c * s + &self.m;
        if let Some(z) = &mut self.z {
            *z = d * s + &*z;
        }
    }

    fn finish(self, k: Option<G::Scalar>) -> (G::Elem, G::Elem) {
        match (self.z, k) {
            (Some(z), _) => (self.m, z),
            (None, Some(k)) => (self.m, self.m * &k),
            (None, None) => (self.m, G::identity_elem()),
        }
    }
}

"""
E("acc_struct", F(co, ("    let mut m = CS::Group::identity_elem();\n    let mut z = CS::Group::identity_elem();\n", "    let mut acc = Acc::<CS::Group>::new(k_option.is_none());\n"),
  ("        m = c * &di + &m;\n        z = match k_option {\n            Some(_) => z,\n            None => d * &di + &z,\n        };\n", "        acc.push(c, d, &di);\n"),
  ("    z = match k_option {\n        Some(k) => m * &k,\n        None => z,\n    };\n\n    Ok((m, z))\n", "    Ok(acc.finish(k_option))\n"),
  (CR, ACC + CR)))
E("labeled_loop", F(co, (FOR, "    let mut pairs = c_slice.zip(d_slice);\n    let mut i = 0_u16;\n    'pairs: loop {\n        let (c, d) = match pairs.next() {\n            Some(pair) if i < len => pair,\n            _ => break 'pairs,\n        };\n"),
  ("            None => d * &di + &z,\n        };\n    }\n", "            None => d * &di + &z,\n        };\n        i = i.wrapping_add(1);\n    }\n")))
E("derive_find_map", F(co, ("""    for counter in 0_u8..=u8::MAX {
        // deriveInput = seed || I2OSP(len(info), 2) || info
        // skS = G.HashToScalar(deriveInput || I2OSP(counter, 1), DST = "DeriveKeyPair"
        // || contextString)
        let sk_s = CS::Group::hash_to_scalar::<CS::Hash>(
            &[seed, &info_len, info, &counter.to_be_bytes()],
            &dst.as_dst(),
        )
        .map_err(|_| Error::DeriveKeyPair)?;

        if !bool::from(CS::Group::is_zero_scalar(sk_s)) {
            return Ok(sk_s);
        }
    }

    Err(Error::Protocol)
""", """    (0_u8..=u8::MAX)
        .find_map(|counter| {
            match CS::Group::hash_to_scalar::<CS::Hash>(
                &[seed, &info_len, info, &counter.to_be_bytes()],
                &dst.as_dst(),
            ) {
                Ok(sk_s) if bool::from(CS::Group::is_zero_scalar(sk_s)) => None,
                Ok(sk_s) => Some(Ok(sk_s)),
                Err(_) => Some(Err(Error::DeriveKeyPair)),
            }
        })
        .unwrap_or(Err(Error::Protocol))
""")))
E("verify_not_then", F(co, (VERIFY_END, """    let same = bool::from(c.ct_eq(&proof.c_scalar));
    (!same).then_some(Err(Error::ProofVerification)).unwrap_or(Ok(()))
""")))
E("verify_option_from_ct", F(co, (VERIFY_END, """    let t = proof.c_scalar.ct_eq(&c);
    if (!t).unwrap_u8() == 1 {
        Err(Error::ProofVerification)
    } else {
        Ok(())
    }
""")))
E("len_tuple_match", F(co, (LENS, """    match (c_slice.len(), d_slice.len()) {
        (x, y) if x == y => {}
        _ => return Err(Error::Batch),
    }
""")))
E("len_abs_diff", F(co, (LENS, """    if c_slice.len().abs_diff(d_slice.len()) > 0 {
        return Err(Error::Batch);
    }
""")))
E("len_max_min", F(co, (LENS, """    if c_slice.len().max(d_slice.len()) != c_slice.len().min(d_slice.len()) {
        return Err(Error::Batch);
    }
""")))
E("len_sub_check", F(co, (LENS, """    if c_slice.len().checked_sub(d_slice.len()) != Some(0) {
        return Err(Error::Batch);
    }
""")))
E("vo_new_expand", F(vo, ("""        let mut seed = GenericArray::<_, <CS::Group as Group>::ScalarLen>::default();
        rng.fill_bytes(&mut seed);
        // This can't fail as the hash output is type constrained.
        Self::new_from_seed(&seed, &[])
""", """        let seed = {
            let mut seed = GenericArray::<u8, <CS::Group as Group>::ScalarLen>::default();
            rng.fill_bytes(seed.as_mut_slice());
            seed
        };
        derive_keypair::<CS>(seed.as_ref(), b"", Mode::Voprf).map(|(sk, pk)| Self { sk, pk })
""")))
E("vo_new_with_key_and_then", F(vo, ("""        let sk = CS::Group::deserialize_scalar(key)?;
        let pk = CS::Group::base_elem() * &sk;
        Ok(Self { sk, pk })
""", """        CS::Group::deserialize_scalar(key).map(|sk| {
            let pk = CS::Group::base_elem() * &sk;
            Self { sk, pk }
        })
""")))
E("vo_blind_evaluate_let_else", F(vo, ("        let message = messages.next().unwrap();\n\n        VoprfServerEvaluateResult { message, proof }\n", """        let Some(message) = messages.next() else {
            unreachable!()
        };

        VoprfServerEvaluateResult { message, proof }
""")))
E("vo_batch_finalize_into", F(vo, ("""        let inputs_and_unblinded_elements = inputs.zip(unblinded_elements);
        Ok(finalize_after_unblind::<CS, _, _>(
            inputs_and_unblinded_elements,
        ))
""", """        Ok(finalize_after_unblind::<CS, I, _>(core::iter::zip(
            inputs,
            unblinded_elements,
        )))
"""),))
E("challenge_shared_fn", F(co, ("    let c_scalar = CS::Group::hash_to_scalar::<CS::Hash>(&h2_input, &dst.as_dst()).unwrap();\n    let s_scalar", "    let c_scalar = challenge::<CS>(&h2_input, &dst.as_dst());\n    let s_scalar"),
  ("    let c = CS::Group::hash_to_scalar::<CS::Hash>(&h2_input, &dst.as_dst()).unwrap();\n", "    let c = challenge::<CS>(&h2_input, &dst.as_dst());\n"),
  (CR, """/// The input is small enough for this to never fail.
fn challenge<CS: CipherSuite>(input: &[&[u8]], dst: &[&[u8]]) -> <CS::Group as Group>::Scalar
where
    <CS::Hash as OutputSizeUser>::OutputSize:
        IsLess<U256> + IsLessOrEqual<<CS::Hash as BlockSizeUser>::BlockSize>,
{
    match CS::Group::hash_to_scalar::<CS::Hash>(input, dst) {
        Ok(s) => s,
        Err(_) => unreachable!("fixed size"),
    }
}

""" + CR)))
E("prod_of_k_first", F(co, (SS, "    let kc = k * &c_scalar;\n    let s_scalar = r - &kc;\n")))
E("t2_swapped_sum", F(co, ("    let t2 = (a * &proof.s_scalar) + &(b * &proof.c_scalar);\n    let t3 = (m * &proof.s_scalar) + &(z * &proof.c_scalar);\n", """    let [t2, t3] = [(a, b), (m, z)].map(|(x, y)| (y * &proof.c_scalar) + &(x * &proof.s_scalar));
""")))
E("serialize_in_array_map", F(co, ("""    // a0 = GG.SerializeElement(M)
    let a0 = CS::Group::serialize_elem(m);
    // a1 = GG.SerializeElement(Z)
    let a1 = CS::Group::serialize_elem(z);
    // a2 = GG.SerializeElement(t2)
    let a2 = CS::Group::serialize_elem(t2);
    // a3 = GG.SerializeElement(t3)
    let a3 = CS::Group::serialize_elem(t3);
""", "    let [a0, a1, a2, a3] = [m, z, t2, t3].map(CS::Group::serialize_elem);\n", 2)))
E("composites_seed_update", F(co, (SEED, """    let seed = {
        use digest::Update;
        let mut h = CS::Hash::new();
        Update::update(&mut h, &elem_len);
        Update::update(&mut h, &CS::Group::serialize_elem(b));
        Update::update(&mut h, &seed_dst.i2osp_2());
        for part in seed_dst.as_dst() {
            Update::update(&mut h, part);
        }
        digest::FixedOutput::finalize_fixed(h)
    };
""")))
E("composites_k_if_let", F(co, ("""    z = match k_option {
        Some(k) => m * &k,
        None => z,
    };

    Ok((m, z))
""", """    if let Some(ref k) = k_option {
        z = m * k;
    }

    Ok((m, z))
""")))
E("composites_k_map_or", F(co, ("""    z = match k_option {
        Some(k) => m * &k,
        None => z,
    };

    Ok((m, z))
""", "    Ok((m, k_option.as_ref().map_or(z, |k| m * k)))\n")))
E("composites_len_let_else", F(co, ("    let len = u16::try_from(c_slice.len()).map_err(|_| Error::Batch)?;\n", """    let Ok(len) = TryInto::<u16>::try_into(c_slice.len()) else {
        return Err(Error::Batch);
    };
""")))
E("composites_len_cmp", F(co, ("    let len = u16::try_from(c_slice.len()).map_err(|_| Error::Batch)?;\n", """    let len = match c_slice.len() {
        n @ 0..=0xffff => n as u16,
        _ => return Err(Error::Batch),
    };
""")))

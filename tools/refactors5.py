"""Fifth round of behaviour-preserving edits: byte loops, iterators over bytes,
slice patterns, stateful closures."""
C = {}
co, se, ec, ri, op, vo, po = "common.rs", "serialization.rs", "group/elliptic_curve.rs", "group/ristretto.rs", "oprf.rs", "voprf.rs", "poprf.rs"


def E(name, *edits):
    C[name] = list(edits)


EC = "        result[..bytes.len()].copy_from_slice(bytes);\n        result\n"
E("ec_index_copy", (ec, EC, "        for i in 0..bytes.len() {\n            result[i] = bytes[i];\n        }\n        result\n"))
E("ec_for_each", (ec, EC, "        result\n            .iter_mut()\n            .zip(bytes)\n            .for_each(|(to, from)| *to = *from);\n        result\n"),
  (ec, "let mut result = GenericArray::default();", "let mut result: GenericArray<u8, Self::ElemLen> = GenericArray::default();"))
E("ec_enumerate_copy", (ec, EC, "        for (i, byte) in bytes.iter().enumerate() {\n            result[i] = *byte;\n        }\n        result\n"))
E("ec_while_copy", (ec, EC, "        let mut i = 0;\n        while i < bytes.len() {\n            result[i] = bytes[i];\n            i += 1;\n        }\n        result\n"))
E("ec_split_at_mut", (ec, EC, "        let (head, _) = result.split_at_mut(bytes.len());\n        head.copy_from_slice(bytes);\n        result\n"),
  (ec, "let mut result = GenericArray::default();", "let mut result: GenericArray<u8, Self::ElemLen> = GenericArray::default();"))
E("dst_parts_loop", (co, """        let par_2 = GenericArray::from(STR_OPRF)
            .concat([mode.to_u8()].into())
            .concat([b'-'].into());

        let dst_1 = par_1.concat(par_2);
""", """        let mode = [mode.to_u8()];
        let parts: [&[u8]; 4] = [&par_1, &STR_OPRF, &mode, b"-"];
        let mut dst_1 = GenericArray::<u8, L>::default();
        let mut position = 0;
        for part in parts {
            dst_1[position..position + part.len()].copy_from_slice(part);
            position += part.len();
        }
"""))
MULTI = "        for data in datas {\n            self.update(data)\n        }\n"
E("multi_split_first", (co, MULTI, "        let mut rest = datas;\n        while let Some((first, tail)) = rest.split_first() {\n            self.update(first);\n            rest = tail;\n        }\n"))
E("multi_pattern", (co, MULTI, "        let mut rest = datas;\n        while let [first, tail @ ..] = rest {\n            self.update(first);\n            rest = tail;\n        }\n"))
E("multi_index", (co, MULTI, "        let mut i = 0;\n        while i < datas.len() {\n            self.update(datas[i]);\n            i += 1;\n        }\n"))
DER = """    for counter in 0_u8..=u8::MAX {
"""
E("derive_successors", (co, DER, "    for counter in core::iter::successors(Some(0_u8), |counter| counter.checked_add(1)) {\n"))
BODY = """    for counter in 0_u8..=u8::MAX {
        // deriveInput = seed || I2OSP(len(info), 2) || info
        // skS = G.HashToScalar(deriveInput || I2OSP(counter, 1), DST = "DeriveKeyPair"
        // || contextString)
        let sk_s = CS::Group::hash_to_scalar::<CS::Hash>(
            &[seed, &info_len, info, &counter.to_be_bytes()],
            &dst.as_dst(),
        )
        .map_err(|_| Error::DeriveKeyPair)?;

        if !bool::from(CS::Group::is_zero_scalar(sk_s)) {
            return Ok(sk_s);
        }
    }

    Err(Error::Protocol)
"""
E("derive_map_find", (co, BODY, """    (0_u8..=u8::MAX)
        .map(|counter| {
            CS::Group::hash_to_scalar::<CS::Hash>(
                &[seed, &info_len, info, &[counter]],
                &dst.as_dst(),
            )
            .map_err(|_| Error::DeriveKeyPair)
        })
        .find(|candidate| match candidate {
            Ok(scalar) => !bool::from(CS::Group::is_zero_scalar(*scalar)),
            Err(_) => true,
        })
        .unwrap_or(Err(Error::Protocol))
"""))
E("derive_try_for_each", (co, BODY, """    let mut result = Err(Error::Protocol);
    for counter in 0_u8..=u8::MAX {
        match CS::Group::hash_to_scalar::<CS::Hash>(&[seed, &info_len, info, &[counter]], &dst.as_dst()) {
            Ok(sk_s) if bool::from(CS::Group::is_zero_scalar(sk_s)) => continue,
            Ok(sk_s) => result = Ok(sk_s),
            Err(_) => result = Err(Error::DeriveKeyPair),
        }
        break;
    }
    result
"""))
PROOF = """        let c_scalar = deserialize_scalar::<CS::Group>(&mut input)?;
        let s_scalar = deserialize_scalar::<CS::Group>(&mut input)?;

        Ok(Proof { c_scalar, s_scalar })
"""
E("proof_array_map", (se, PROOF, """        let [c_scalar, s_scalar] = [(); 2].map(|()| deserialize_scalar::<CS::Group>(&mut input));

        Ok(Proof {
            c_scalar: c_scalar?,
            s_scalar: s_scalar?,
        })
"""))
E("proof_closure", (se, PROOF, """        let mut next = || deserialize_scalar::<CS::Group>(&mut input);

        Ok(Proof {
            c_scalar: next()?,
            s_scalar: next()?,
        })
"""))
SER = """        CS::Group::serialize_scalar(self.c_scalar)
            .concat(CS::Group::serialize_scalar(self.s_scalar))"""
E("ser_split_at_mut", (se, SER, """        let mut bytes = GenericArray::default();
        let (c_bytes, s_bytes) = GenericArray::<u8, ProofLen<CS>>::as_mut_slice(&mut bytes)
            .split_at_mut(<CS::Group as Group>::ScalarLen::USIZE);
        c_bytes.copy_from_slice(&CS::Group::serialize_scalar(self.c_scalar));
        s_bytes.copy_from_slice(&CS::Group::serialize_scalar(self.s_scalar));
        bytes"""))
E("ser_chain_copied", (se, SER, """        let c_bytes = CS::Group::serialize_scalar(self.c_scalar);
        let s_bytes = CS::Group::serialize_scalar(self.s_scalar);
        c_bytes.iter().chain(s_bytes.iter()).copied().collect()"""))
E("ser_exact_iter", (se, SER, """        let c_bytes = CS::Group::serialize_scalar(self.c_scalar);
        let s_bytes = CS::Group::serialize_scalar(self.s_scalar);
        GenericArray::from_exact_iter(c_bytes.into_iter().chain(s_bytes)).unwrap()"""))
E("ser_byte_loop", (se, SER, """        let c_bytes = CS::Group::serialize_scalar(self.c_scalar);
        let s_bytes = CS::Group::serialize_scalar(self.s_scalar);
        let mut bytes = GenericArray::<u8, ProofLen<CS>>::default();
        for (i, byte) in c_bytes.iter().enumerate() {
            bytes[i] = *byte;
        }
        for (i, byte) in s_bytes.iter().enumerate() {
            bytes[c_bytes.len() + i] = *byte;
        }
        bytes"""))
E("ser_chained_loop", (se, SER, """        let c_bytes = CS::Group::serialize_scalar(self.c_scalar);
        let s_bytes = CS::Group::serialize_scalar(self.s_scalar);
        let mut bytes = GenericArray::<u8, ProofLen<CS>>::default();
        for (to, from) in bytes.iter_mut().zip(c_bytes.iter().chain(&s_bytes)) {
            *to = *from;
        }
        bytes"""))
INFO = """    if let Some(info) = info {
        hash = hash
            .chain_update(i2osp_2(info.as_ref().len()).map_err(|_| Error::Input)?)
            .chain_update(info.as_ref());
    }
"""
E("hash_info_loop", (co, INFO, INFO.replace("if let Some(info) = info", "for info in info")))
E("hash_info_iter", (co, INFO, """    for part in info.iter() {
        Digest::update(&mut hash, i2osp_2(part.len()).map_err(|_| Error::Input)?);
        Digest::update(&mut hash, part);
    }
"""))
E("hash_info_try_fold", (co, INFO, """    hash = info.into_iter().try_fold(hash, |hash, info| {
        i2osp_2(info.len())
            .map(|length| hash.chain_update(length).chain_update(info))
            .map_err(|_| Error::Input)
    })?;
"""))
TAKE = """        if take > self.len() {
            return None;
        }

        let (front, back) = self.split_at(take);
        *self = back;
        Some(front)
"""
E("take_mem_take", (se, TAKE, """        if self.len() < take {
            return None;
        }

        let (front, back) = core::mem::take(self).split_at(take);
        *self = back;
        Some(front)
"""))
E("take_get_both", (se, TAKE, """        match (self.get(..take), self.get(take..)) {
            (Some(front), Some(back)) => {
                *self = back;
                Some(front)
            }
            _ => None,
        }
"""))

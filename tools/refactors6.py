"""Sixth refactor corpus: structural rewrites (builders, traits, shared helpers, dispatch)."""
from bugs2 import F, co, op, vo, po, se, ec, ri, gm, li, er, cs  # noqa: F401

C = {}


def E(name, *edits):
    C[name] = list(edits)


WC = """
where
    <CS::Hash as OutputSizeUser>::OutputSize:
        IsLess<U256> + IsLessOrEqual<<CS::Hash as BlockSizeUser>::BlockSize>,
{
"""
import re
SRC = open("/repo/src/common.rs").read()


def body(src, start, end="\n}\n"):
    i = src.index(start)
    return src[i:src.index(end, i) + len(end)]


HASH = body(SRC, "    let mut hash = CS::Hash::new()\n        .chain_update(i2osp_2(input", "        .finalize())\n")
E("transcript_builder", F(co, (HASH, """    let mut transcript = Transcript::<CS::Hash>::start();
    transcript.frame(input)?;
    if let Some(info) = info {
        transcript.frame(info)?;
    }
    transcript.frame(&issued_element)?;
    Ok(transcript.finish(&STR_FINALIZE))
"""), ("pub(crate) struct Dst<", """struct Transcript<D> {
    state: D,
}

impl<D: Digest> Transcript<D> {
    fn start() -> Self {
        Self { state: D::new() }
    }

    fn frame(&mut self, part: &[u8]) -> Result<()> {
        let len = i2osp_2(part.len()).map_err(|_| Error::Input)?;
        self.state.update(len);
        self.state.update(part);
        Ok(())
    }

    fn finish(mut self, label: &[u8]) -> Output<D> {
        self.state.update(label);
        self.state.finalize()
    }
}

pub(crate) struct Dst<""")))
E("transcript_chain", F(co, (HASH, """    let transcript = Framed(CS::Hash::new()).part(input)?;
    let transcript = match info {
        Some(info) => transcript.part(info)?,
        None => transcript,
    };
    let Framed(hash) = transcript.part(issued_element.as_slice())?;
    Ok(hash.chain_update(STR_FINALIZE).finalize())
"""), ("pub(crate) struct Dst<", """struct Framed<D>(D);

impl<D: Digest> Framed<D> {
    fn part(self, part: &[u8]) -> Result<Self> {
        match u16::try_from(part.len()) {
            Ok(len) => Ok(Self(self.0.chain_update(len.to_be_bytes()).chain_update(part))),
            Err(_) => Err(Error::Input),
        }
    }
}

pub(crate) struct Dst<""")))
H2S_C = """    let dst = Dst::new::<CS, _, _>(STR_HASH_TO_SCALAR, mode);
    let c_scalar = CS::Group::hash_to_scalar::<CS::Hash>(&h2_input, &dst.as_dst()).unwrap();
"""
H2S_V = """    let dst = Dst::new::<CS, _, _>(STR_HASH_TO_SCALAR, mode);
    // This can't fail, the size of the `input` is known.
    let c = CS::Group::hash_to_scalar::<CS::Hash>(&h2_input, &dst.as_dst()).unwrap();
"""
if H2S_V not in SRC:
    H2S_V = SRC[SRC.rindex("    let dst", 0, SRC.index("let c = CS::Group::hash_to_scalar")):SRC.index("    match c.ct_eq")].rstrip() + "\n"
if H2S_C not in SRC:
    H2S_C = SRC[SRC.rindex("    let dst", 0, SRC.index("let c_scalar = CS::Group::hash_to_scalar")):SRC.index("    let s_scalar = r")].rstrip() + "\n"
TRAIT_MODE = """trait Tagged {
    fn scalar<CS: CipherSuite>(self, parts: &[&[u8]]) -> <CS::Group as Group>::Scalar
    where
        <CS::Hash as OutputSizeUser>::OutputSize:
            IsLess<U256> + IsLessOrEqual<<CS::Hash as BlockSizeUser>::BlockSize>;
}

impl Tagged for Mode {
    fn scalar<CS: CipherSuite>(self, parts: &[&[u8]]) -> <CS::Group as Group>::Scalar
    where
        <CS::Hash as OutputSizeUser>::OutputSize:
            IsLess<U256> + IsLessOrEqual<<CS::Hash as BlockSizeUser>::BlockSize>,
    {
        let dst = Dst::new::<CS, _, _>(STR_HASH_TO_SCALAR, self);
        CS::Group::hash_to_scalar::<CS::Hash>(parts, &dst.as_dst()).unwrap()
    }
}

pub(crate) struct Dst<"""
E("mode_trait_scalar", F(co, (H2S_C, "    let c_scalar = mode.scalar::<CS>(&h2_input);\n"), (H2S_V, "    let c = mode.scalar::<CS>(&h2_input);\n"), ("pub(crate) struct Dst<", TRAIT_MODE)))
GP = body(SRC, "    let t2 = a * &r;\n", "    Ok(Proof { c_scalar, s_scalar })\n")
VP = body(SRC, "    let t2 = (a * &proof.s_scalar)", "        false => Err(Error::ProofVerification),\n    }\n")
STATEMENT = """struct Statement<CS: CipherSuite> %(w)s    key: <CS::Group as Group>::Elem,
    composites: (<CS::Group as Group>::Elem, <CS::Group as Group>::Elem),
    mode: Mode,
}

impl<CS: CipherSuite> Statement<CS>%(w)s    fn challenge(
        &self,
        t2: <CS::Group as Group>::Elem,
        t3: <CS::Group as Group>::Elem,
    ) -> <CS::Group as Group>::Scalar {
        let bm = CS::Group::serialize_elem(self.key);
        let a0 = CS::Group::serialize_elem(self.composites.0);
        let a1 = CS::Group::serialize_elem(self.composites.1);
        let a2 = CS::Group::serialize_elem(t2);
        let a3 = CS::Group::serialize_elem(t3);
        let n = <CS::Group as Group>::ElemLen::U16.to_be_bytes();
        let parts: [&[u8]; 11] = [&n, &bm, &n, &a0, &n, &a1, &n, &a2, &n, &a3, &STR_CHALLENGE];
        let dst = Dst::new::<CS, _, _>(STR_HASH_TO_SCALAR, self.mode);
        CS::Group::hash_to_scalar::<CS::Hash>(&parts, &dst.as_dst()).unwrap()
    }

    fn prove<R: RngCore + CryptoRng>(
        &self,
        rng: &mut R,
        a: <CS::Group as Group>::Elem,
        k: <CS::Group as Group>::Scalar,
    ) -> Proof<CS> {
        let r = CS::Group::random_scalar(rng);
        let c_scalar = self.challenge(a * &r, self.composites.0 * &r);
        Proof {
            c_scalar,
            s_scalar: r - &(c_scalar * &k),
        }
    }

    fn check(&self, a: <CS::Group as Group>::Elem, proof: &Proof<CS>) -> Result<()> {
        let Proof { c_scalar, s_scalar } = proof;
        let (m, z) = self.composites;
        let c = self.challenge(
            (a * s_scalar) + &(self.key * c_scalar),
            (m * s_scalar) + &(z * c_scalar),
        );
        if bool::from(c.ct_eq(c_scalar)) {
            Ok(())
        } else {
            Err(Error::ProofVerification)
        }
    }
}

pub(crate) struct Dst<""" % {"w": WC}
R_LINE = body(SRC, "    let r = CS::Group::random_scalar(rng);", "\n")
E("statement_struct", F(co, (R_LINE, ""), (GP, "    Ok(Statement::<CS> { key: b, composites: (m, z), mode }.prove(rng, a, k))\n"), (VP, "    Statement::<CS> { key: b, composites: (m, z), mode }.check(a, proof)\n"), ("pub(crate) struct Dst<", STATEMENT)))
LOOP = body(SRC, "    for (i, (c, d)) in (0..len).zip(c_slice.zip(d_slice)) {", "\n    }\n")
E("composites_iterator", F(co, (LOOP, """    let entries = Entries {
        index: 0,
        seed: &seed,
        mode,
        pairs: c_slice.zip(d_slice),
        suite: core::marker::PhantomData::<CS>,
    };
    for (c, d, di) in entries {
        m = c * &di + &m;
        if k_option.is_none() {
            z = d * &di + &z;
        }
    }
"""), ("pub(crate) struct Dst<", """struct Entries<'a, CS, P> {
    index: u16,
    seed: &'a [u8],
    mode: Mode,
    pairs: P,
    suite: core::marker::PhantomData<CS>,
}

impl<CS: CipherSuite, P> Iterator for Entries<'_, CS, P>
where
    P: Iterator<Item = (<CS::Group as Group>::Elem, <CS::Group as Group>::Elem)>,
    <CS::Hash as OutputSizeUser>::OutputSize:
        IsLess<U256> + IsLessOrEqual<<CS::Hash as BlockSizeUser>::BlockSize>,
{
    type Item = (
        <CS::Group as Group>::Elem,
        <CS::Group as Group>::Elem,
        <CS::Group as Group>::Scalar,
    );

    fn next(&mut self) -> Option<Self::Item> {
        let (c, d) = self.pairs.next()?;
        let elem_len = <CS::Group as Group>::ElemLen::U16.to_be_bytes();
        let ci = CS::Group::serialize_elem(c);
        let di = CS::Group::serialize_elem(d);
        let seed_len = (self.seed.len() as u16).to_be_bytes();
        let h2_input = [
            &seed_len,
            self.seed,
            &self.index.to_be_bytes(),
            &elem_len,
            &ci,
            &elem_len,
            &di,
            &STR_COMPOSITE,
        ];
        let dst = Dst::new::<CS, _, _>(STR_HASH_TO_SCALAR, self.mode);
        let weight = CS::Group::hash_to_scalar::<CS::Hash>(&h2_input, &dst.as_dst()).unwrap();
        self.index = self.index.wrapping_add(1);
        Some((c, d, weight))
    }
}

pub(crate) struct Dst<"""), ("    let seed_len = i2osp_2_array(&seed);\n", ""), ("pub(crate) fn i2osp_2_array", "#[allow(dead_code)]\npub(crate) fn i2osp_2_array")))
E("composites_role_trait", F(co, ("        z = match k_option {\n            Some(_) => z,\n            None => d * &di + &z,\n        };\n", "        z = Role::<CS>::add(&k_option, z, d, di);\n"), ("pub(crate) struct Dst<", """trait Role<CS: CipherSuite>%s    fn add(
        &self,
        z: <CS::Group as Group>::Elem,
        d: <CS::Group as Group>::Elem,
        w: <CS::Group as Group>::Scalar,
    ) -> <CS::Group as Group>::Elem;
}

impl<CS: CipherSuite> Role<CS> for Option<<CS::Group as Group>::Scalar>%s    fn add(
        &self,
        z: <CS::Group as Group>::Elem,
        d: <CS::Group as Group>::Elem,
        w: <CS::Group as Group>::Scalar,
    ) -> <CS::Group as Group>::Elem {
        self.as_ref().map_or_else(|| d * &w + &z, |_| z)
    }
}

pub(crate) struct Dst<""" % (WC, WC))))
E("composites_dyn", F(co, ("    for (i, (c, d)) in (0..len).zip(c_slice.zip(d_slice)) {", """    let weigh: &dyn Fn(&[&[u8]]) -> <CS::Group as Group>::Scalar = &|parts| {
        let dst = Dst::new::<CS, _, _>(STR_HASH_TO_SCALAR, mode);
        CS::Group::hash_to_scalar::<CS::Hash>(parts, &dst.as_dst()).unwrap()
    };

    for (i, (c, d)) in (0..len).zip(c_slice.zip(d_slice)) {"""), (LOOP[LOOP.index("        let dst ="):LOOP.index("        m = c")], "        let di = weigh(&h2_input);\n")) if LOOP.count("let dst =") == 1 else F(co))
E("composites_fn_pointer", F(co, ("    for (i, (c, d)) in (0..len).zip(c_slice.zip(d_slice)) {", """    let weigh: fn(&[&[u8]], Mode) -> <CS::Group as Group>::Scalar = |parts, mode| {
        let dst = Dst::new::<CS, _, _>(STR_HASH_TO_SCALAR, mode);
        CS::Group::hash_to_scalar::<CS::Hash>(parts, &dst.as_dst()).unwrap()
    };

    for (i, (c, d)) in (0..len).zip(c_slice.zip(d_slice)) {"""), (LOOP[LOOP.index("        let dst ="):LOOP.index("        m = c")], "        let di = weigh(&h2_input, mode);\n")))
E("labelled_block", F(co, ("""    let hashed_point = hash_to_group::<CS>(input, mode)?;
    if CS::Group::is_identity_elem(hashed_point).into() {
        return Err(Error::Input);
    };
    Ok(hashed_point * blind)
""", """    'blind: {
        let hashed_point = match hash_to_group::<CS>(input, mode) {
            Ok(hashed_point) => hashed_point,
            Err(error) => break 'blind Err(error),
        };
        if !bool::from(!CS::Group::is_identity_elem(hashed_point)) {
            break 'blind Err(Error::Input);
        }
        Ok(hashed_point * blind)
    }
"""))) if "        return Err(Error::Input);\n    };\n    Ok(hashed_point * blind)\n" in SRC else None
POS = open("/repo/src/poprf.rs").read()
FR = "    let framed_info = [STR_INFO.as_slice(), &info_len, info];\n"
TW = body(POS, "    let info = info.unwrap_or_default();\n", "hash_to_scalar::<CS::Hash>(&framed_info, &dst.as_dst()).unwrap();\n")


def info_struct(s):
    s, n = re.subn(r"    // .*\n(?:    // .*\n)*    let info = info\.unwrap_or_default\(\);\n(?:(?!\n}\n).*\n)*?.*hash_to_scalar::<CS::Hash>\(&framed_info, &dst\.as_dst\(\)\)\.unwrap\(\);\n", "    let m = Info::new(info)?.scalar::<CS>();\n", s)
    assert n == 2, n
    return s.replace("fn compute_tweak<CS", """struct Info<'a> {
    len: [u8; 2],
    data: &'a [u8],
}

impl<'a> Info<'a> {
    fn new(info: Option<&'a [u8]>) -> Result<Self> {
        let data = info.unwrap_or_default();
        let len = i2osp_2(data.len()).map_err(|_| Error::Info)?;
        Ok(Self { len, data })
    }

    fn scalar<CS: CipherSuite>(&self) -> <CS::Group as Group>::Scalar
    where
        <CS::Hash as OutputSizeUser>::OutputSize:
            IsLess<U256> + IsLessOrEqual<<CS::Hash as BlockSizeUser>::BlockSize>,
    {
        let dst = Dst::new::<CS, _, _>(STR_HASH_TO_SCALAR, Mode::Poprf);
        CS::Group::hash_to_scalar::<CS::Hash>(
            &[STR_INFO.as_slice(), &self.len, self.data],
            &dst.as_dst(),
        )
        .unwrap()
    }
}

fn compute_tweak<CS""", 1)


E("info_struct", (po, info_struct, None))
E("refuse_trait", F(po, ("""    match bool::from(CS::Group::is_zero_scalar(t)) {
        true => Err(Error::Protocol),
        false => Ok(t),
    }
""", "    t.refused_if(CS::Group::is_zero_scalar(t))\n"), ("""    match bool::from(CS::Group::is_identity_elem(tweaked_key)) {
        true => Err(Error::Protocol),
        false => Ok(tweaked_key),
    }
""", "    tweaked_key.refused_if(CS::Group::is_identity_elem(tweaked_key))\n"), ("type PoprfUnblindResult<", """trait Refuse: Sized {
    fn refused_if(self, degenerate: impl Into<bool>) -> Result<Self> {
        (!degenerate.into()).then_some(self).ok_or(Error::Protocol)
    }
}

impl<T> Refuse for T {}

type PoprfUnblindResult<""")))
EV_O = body(open("/repo/src/oprf.rs").read(), "        let input_element = hash_to_group::<CS>(input, Mode::Oprf)?;", "issued_element)\n")
EV_V = body(open("/repo/src/voprf.rs").read(), "        let input_element = hash_to_group::<CS>(input, Mode::Voprf)?;", "issued_element)\n")
SHARED = """pub(crate) fn evaluate_with<CS: CipherSuite>(
    mode: Mode,
    input: &[u8],
    info: Option<&[u8]>,
    key: impl FnOnce() -> Result<<CS::Group as Group>::Scalar>,
) -> Result<Output<CS::Hash>>%s    let element = hash_to_group::<CS>(input, mode)?;
    if CS::Group::is_identity_elem(element).into() {
        return Err(Error::Input);
    }
    let issued = CS::Group::serialize_elem(element * &key()?);
    server_evaluate_hash_input::<CS>(input, info, issued)
}

pub(crate) struct Dst<""" % WC
EV_P = body(POS, "        let input_element = hash_to_group::<CS>(input, Mode::Poprf)?;", "issued_element)\n")
E("evaluate_shared_closure", F(co, ("pub(crate) struct Dst<", SHARED)), F(op, (EV_O, "        crate::common::evaluate_with::<CS>(Mode::Oprf, input, None, || Ok(self.sk))\n")), F(vo, (EV_V, "        crate::common::evaluate_with::<CS>(Mode::Voprf, input, None, || Ok(self.sk))\n")),
  F(po, (EV_P, "        crate::common::evaluate_with::<CS>(Mode::Poprf, input, Some(info.unwrap_or(&[])), || {\n            compute_tweak::<CS>(self.sk, info).map(CS::Group::invert_scalar)\n        })\n")))
E("server_trait", F(co, ("pub(crate) struct Dst<", """pub(crate) trait Evaluator<CS: CipherSuite>%s    const MODE: Mode;

    fn key(&self) -> &<CS::Group as Group>::Scalar;

    fn direct(&self, input: &[u8]) -> Result<Output<CS::Hash>> {
        let element = hash_to_group::<CS>(input, Self::MODE)?;
        match bool::from(CS::Group::is_identity_elem(element)) {
            false => server_evaluate_hash_input::<CS>(
                input,
                None,
                CS::Group::serialize_elem(element * self.key()),
            ),
            true => Err(Error::Input),
        }
    }
}

pub(crate) struct Dst<""" % WC)),
  F(op, (EV_O, "        crate::common::Evaluator::direct(self, input)\n"), ("impl<CS: CipherSuite> OprfServer<CS>\n", "impl<CS: CipherSuite> crate::common::Evaluator<CS> for OprfServer<CS>%s    const MODE: Mode = Mode::Oprf;\n\n    fn key(&self) -> &<CS::Group as Group>::Scalar {\n        &self.sk\n    }\n}\n\nimpl<CS: CipherSuite> OprfServer<CS>\n" % WC)),
  F(vo, (EV_V, "        crate::common::Evaluator::direct(self, input)\n"), ("impl<CS: CipherSuite> VoprfServer<CS>\n", "impl<CS: CipherSuite> crate::common::Evaluator<CS> for VoprfServer<CS>%s    const MODE: Mode = Mode::Voprf;\n\n    fn key(&self) -> &<CS::Group as Group>::Scalar {\n        &self.sk\n    }\n}\n\nimpl<CS: CipherSuite> VoprfServer<CS>\n" % WC)))
DER = body(SRC, "    for counter in 0_u8..=u8::MAX {\n", "    Err(Error::Protocol)\n")
E("derive_iterator", F(co, (DER, """    let mut candidates = Candidates {
        counter: 0,
        derive: |counter: u8| {
            CS::Group::hash_to_scalar::<CS::Hash>(
                &[seed, &info_len, info, &[counter]],
                &dst.as_dst(),
            )
            .map_err(|_| Error::DeriveKeyPair)
        },
    };
    for candidate in &mut candidates {
        let sk_s = candidate?;
        if !bool::from(CS::Group::is_zero_scalar(sk_s)) {
            return Ok(sk_s);
        }
    }
    Err(Error::Protocol)
"""), ("pub(crate) struct Dst<", """struct Candidates<F> {
    counter: u16,
    derive: F,
}

impl<T, F: FnMut(u8) -> Result<T>> Iterator for Candidates<F> {
    type Item = Result<T>;

    fn next(&mut self) -> Option<Self::Item> {
        let counter = u8::try_from(self.counter).ok()?;
        self.counter += 1;
        Some((self.derive)(counter))
    }
}

pub(crate) struct Dst<""")))
E("derive_rev_rev", F(co, ("    for counter in 0_u8..=u8::MAX {\n", "    for counter in (0_u8..=u8::MAX).rev().map(|left| u8::MAX - left) {\n")))
E("derive_skip", F(co, ("    for counter in 0_u8..=u8::MAX {\n", "    for counter in (0_u16..).take(256).map(|counter| counter as u8) {\n")))
E("i2osp_shift", F(co, ("""    u16::try_from(input)
        .map(|input| input.to_be_bytes())
        .map_err(|_| InternalError::I2osp)
""", """    match input.to_be_bytes() {
        [0, 0, 0, 0, 0, 0, high, low] => Ok([high, low]),
        _ => Err(InternalError::I2osp),
    }
""")))
E("i2osp_shift2", F(co, ("""    u16::try_from(input)
        .map(|input| input.to_be_bytes())
        .map_err(|_| InternalError::I2osp)
""", """    if input >> 16 != 0 {
        return Err(InternalError::I2osp);
    }
    Ok([(input >> 8) as u8, (input & 0xff) as u8])
""")))
E("client_blind_trait", F(po, ("        .map(<fn(&PoprfClient<CS>) -> _>::from(|x| x.blind));\n", "        .map(<fn(&PoprfClient<CS>) -> _>::from(PoprfClient::secret));\n"), ("type PoprfUnblindResult<", """impl<CS: CipherSuite> PoprfClient<CS>%s    fn secret(&self) -> <CS::Group as Group>::Scalar {
        self.blind
    }
}

type PoprfUnblindResult<""" % WC)))
E("scope_fn_proof", F(co, ("    Ok(Proof { c_scalar, s_scalar })\n}\n\n/// Can only", "    fn respond<G: Group>(r: G::Scalar, c: &G::Scalar, k: &G::Scalar) -> G::Scalar {\n        r - &(*c * k)\n    }\n    let s_scalar = respond::<CS::Group>(r, &c_scalar, &k);\n\n    Ok(Proof { c_scalar, s_scalar })\n}\n\n/// Can only"), ("    let s_scalar = r - &(c_scalar * &k);\n", "")))
C = {k: v for k, v in C.items() if v}

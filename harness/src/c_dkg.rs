//! C20 key generation, C21 resharing and refreshing.
use crate::core::*;
use crate::ensure;
use crate::oracle::*;
use crate::sim_ped::*;
use crate::sim_rab;
use crate::suite::MonSuite;
use crate::vss::*;
use kyber_rs::encoding::BinaryMarshaler;
use kyber_rs::share::dkg::pedersen::structs as dkg_structs;
use kyber_rs::sign::schnorr;
use kyber_rs::group::edwards25519::Point;
use kyber_rs::share::poly::PriShare;

fn fresh(c: &mut Case) -> Res {
    let max = if c.thorough() { 9 } else { 6 };
    let spec = fresh_spec(&mut c.rng, max)?;
    let mut sim = Sim::new(c, spec)?;
    sim.run(c, None)?;
    note(c, &sim);
    Ok(())
}
/// configurations that make no sense are refused
fn config(c: &mut Case) -> Res {
    use kyber_rs::share::dkg::pedersen as dkg;
    let n = c.rng.range(2, 6);
    let (longs, pubs) = keys(&mut c.rng, n + 1)?;
    let t = c.rng.range(2, n);
    let me = c.rng.below(n);
    let base = || dkg::Config::<MonSuite, Rd> { suite: MonSuite {}, longterm: longs[me].clone(), new_nodes: pubs[..n].to_vec(), threshold: t, ..Default::default() };
    let co: Vec<[u8; 32]> = (0..t).map(|_| red(&c.rng.arr::<32>())).collect();
    let commits = sim_rab::commit_coeffs(&co)?;
    let share = |i: usize| -> Res<Share> { Ok(Share { commits: commits.clone(), share: PriShare { i, v: ks(&poly_at(&co, i))? }, private_poly: vec![] }) };
    let mut cfg = base();
    let (name, bad) = match c.rng.below(13) {
        0 => ("fresh", false),
        1 => {
            cfg.new_nodes = vec![];
            ("no-nodes", true)
        }
        2 => {
            cfg.longterm = longs[n].clone();
            ("stranger", true)
        }
        3 => {
            let (i, j) = (c.rng.below(n), c.rng.below(n));
            if i == j {
                return Ok(());
            }
            cfg.new_nodes[i] = pubs[j];
            // the node may have dropped out of the list itself
            ("duplicate-node", true)
        }
        4 => {
            cfg.threshold = n + 1 + c.rng.below(3);
            ("threshold-above", true)
        }
        5 => {
            cfg.threshold = 1;
            ("threshold-one", true)
        }
        6 => {
            cfg.old_nodes = cfg.new_nodes.clone();
            cfg.share = Some(share(me)?);
            cfg.old_threshold = t;
            ("reshare", false)
        }
        7 => {
            cfg.share = Some(share(me)?);
            cfg.old_threshold = t;
            ("reshare-no-old-nodes", true)
        }
        8 => {
            cfg.old_nodes = cfg.new_nodes.clone();
            cfg.share = Some(share(me)?);
            ("reshare-no-old-threshold", true)
        }
        9 => {
            cfg.old_nodes = cfg.new_nodes.clone();
            cfg.public_coeffs = Some(commits.clone());
            ("receiver-no-old-threshold", true)
        }
        10 => {
            cfg.public_coeffs = Some(commits.clone());
            cfg.old_threshold = t;
            ("receiver-no-old-nodes", true)
        }
        11 => {
            cfg.old_nodes = cfg.new_nodes.clone();
            cfg.longterm = longs[n].clone();
            cfg.public_coeffs = Some(commits.clone());
            cfg.old_threshold = t;
            ("reshare-stranger", true)
        }
        _ => {
            let (i, j) = (c.rng.below(n), c.rng.below(n));
            if i == j {
                return Ok(());
            }
            cfg.old_nodes = cfg.new_nodes.clone();
            cfg.old_nodes[i] = pubs[j];
            cfg.public_coeffs = Some(commits.clone());
            cfg.old_threshold = t;
            ("duplicate-dealer", true)
        }
    };
    c.state(format!("{} {} {} {}", name, n, t, me).as_bytes());
    let r = nopanic("new_dist_key_handler", || dkg::new_dist_key_handler(cfg))?;
    ensure!(r.is_ok() != bad, "config", "{} of {} nodes: {:?}", name, n, r.err());
    c.ev(&format!("config:{}", name));
    Ok(())
}

/// the plain constructor: everybody honest, secrets from the operating system
fn generator(c: &mut Case) -> Res {
    use kyber_rs::share::dkg::pedersen as dkg;
    let n = c.rng.range(2, 6);
    let t = c.rng.range(2, n);
    let (longs, pubs) = keys(&mut c.rng, n)?;
    let mut ds: Vec<dkg::DistKeyGenerator<MonSuite, Rd>> = vec![];
    for l in &longs {
        ds.push(ok(nopanic("new_dist_key_generator", || dkg::new_dist_key_generator(MonSuite {}, l.clone(), &pubs, t))?, "new-dkg")?);
    }
    let mut rs = vec![];
    for o in 0..n {
        let deals = ok(nopanic("deals", || ds[o].deals())?, "deals")?;
        ensure!(deals.len() == n - 1, "deals", "{} deals for {} others", deals.len(), n - 1);
        for (k, d) in deals {
            let r = ok(nopanic("process_deal", || ds[k].process_deal(&d))?, "process-deal")?;
            ensure!(r.response.status, "deal-judgement", "honest deal complained about");
            rs.push((k, r));
        }
    }
    c.rng.shuffle(&mut rs);
    for (k, r) in &rs {
        for p in 0..n {
            if p != *k {
                let j = ok(nopanic("process_response", || ds[p].process_response(r))?, "process-response")?;
                ensure!(j.is_none(), "spurious-justification", "an approval is justified");
            }
        }
    }
    let mut sh = vec![];
    let mut commits: Option<Vec<Point>> = None;
    let mut firsts = vec![];
    for (p, d) in ds.iter().enumerate() {
        ensure!(d.certified(), "fault-free", "party {} not certified in a fault-free run", p);
        let s = ok(nopanic("dist_key_share", || d.dist_key_share())?, "dist-key-share")?;
        ensure!(s.share.i == p && s.commits.len() == t, "share-shape", "index {} commitments {}", s.share.i, s.commits.len());
        ensure!(*commits.get_or_insert(s.commits.clone()) == s.commits, "agreement", "different keys");
        firsts.push(sbytes(&s.private_poly[0])?);
        sh.push((p, red(&sbytes(&s.share.v)?)));
    }
    let pick = c.rng.subset(n, t);
    let pts: Vec<_> = pick.iter().map(|i| sh[*i]).collect();
    let public = commits.unwrap()[0];
    ensure!(imul(&lagrange0(&pts), &dbase()) == dalek_of(&public)?, "reconstruct", "t shares do not give the private key");
    firsts.sort();
    firsts.dedup();
    ensure!(firsts.len() == n, "same-secret", "two participants contribute the same secret");
    c.state(&pbytes(&public)?);
    c.ev("plain-generation");
    Ok(())
}
fn note(c: &mut Case, sim: &Sim) {
    let mut st = format!("{:?}{:?}{:?}{}", sim.said, sim.justified, sim.got, sim.spec.t).into_bytes();
    st.extend(sim.delivered.iter().flat_map(|e| [e.to as u8, e.o as u8]));
    c.state(&st);
}

pub fn run_c20(ctx: &Ctx) {
    ctx.rule("qualified set, completion, commitments and share of every honest participant predicted from the broadcast messages and the dealers' polynomials; non-trivial = distinct (faults, delivery order) pairs");
    ctx.assume("broadcast channel: an honest participant's answers and justifications reach everyone before the timeout, everyone sees the same first answer of a dishonest one, and justifications follow the complaint they answer; deals may be lost; dealers use one session (see known findings)");
    ctx.family("dkg", ctx.n(700, 12000), fresh);
    ctx.family("config", ctx.n(200, 3000), config);
    ctx.family("generator", ctx.n(30, 600), generator);
    ctx.require("plain-generation", 30);
    ctx.family("equivocation", 1, equivocation);
    ctx.family("foreign-complaint", 1, foreign_complaint);
    ctx.require("equivocation-probe", 1);
    ctx.require("foreign-complaint-probe", 1);
    ctx.require("agreement-compared", 500);
    ctx.require("key-reconstructed", 300);
    ctx.require("early-output", 50);
    ctx.require("justified", 100);
    ctx.require("bad-justification", 30);
    ctx.require("unfinished", 30);
    ctx.require("fault-free-participant", 100);
}

/// four parties, threshold two, everything delivered by hand
fn manual(c: &mut Case) -> Res<Sim> {
    let (longs, pubs) = keys(&mut c.rng, 4)?;
    let spec = Spec {
        fresh: true,
        t: 2,
        longs,
        pubs,
        olds: vec![0, 1, 2, 3],
        news: vec![0, 1, 2, 3],
        old: None,
        byz: Default::default(),
        lossy: false,
        noise: false,
        default_t: false,
    };
    let mut s = Sim::new(c, spec)?;
    while s.spec.t != 2 {
        s = manual(c)?;
    }
    Ok(s)
}
fn finish(s: &mut Sim, who: &[usize]) -> Vec<Option<Share>> {
    who.iter()
        .map(|p| {
            s.parties[*p].dkg.set_timeout();
            s.parties[*p].dkg.dist_key_share().ok()
        })
        .collect()
}
fn disagree(outs: &[Option<Share>]) -> bool {
    let o: Vec<_> = outs.iter().flatten().collect();
    o.windows(2).any(|w| w[0].commits != w[1].commits)
}
/// a dealer using one session with some and another with the others
fn equivocation(c: &mut Case) -> Res {
    let mut s = manual(c)?;
    let pubs = s.spec.pubs.clone();
    let sec = [scalar(&mut c.rng)?, scalar(&mut c.rng)?];
    let vd = [
        ok(Ped::dealer(&s.parties[0].long, &sec[0], &pubs, 2), "dealer")?,
        ok(Ped::dealer(&s.parties[0].long, &sec[1], &pubs, 2), "dealer")?,
    ];
    let mut msgs = vec![];
    for p in 1..4 {
        let mut d = Deal { index: 0, deal: ok(Ped::enc(&vd[usize::from(p > 1)], p), "enc")?, signature: vec![] };
        d.signature = ok(schnorr::sign(&MonSuite {}, &s.parties[0].long, &d.marshal_binary().unwrap()), "sign")?;
        msgs.push((p, ok(s.parties[p].dkg.process_deal(&d), "deal")?));
    }
    honest_deals(&mut s, &[1, 2, 3], &[], &mut msgs)?;
    spread(&mut s, &[1, 2, 3], &msgs);
    let outs = finish(&mut s, &[1, 2, 3]);
    c.ev("equivocation-probe");
    ensure!(!disagree(&outs), "equivocating-dealer", "a dealer using two sessions made honest participants finish with different keys");
    Ok(())
}
fn honest_deals(s: &mut Sim, from: &[usize], lost: &[(usize, usize)], msgs: &mut Vec<(usize, dkg_structs::Response)>) -> Res {
    for o in from {
        let m = ok(s.parties[*o].dkg.deals(), "deals")?;
        for (k, d) in m {
            if !lost.contains(&(*o, k)) {
                msgs.push((k, ok(s.parties[k].dkg.process_deal(&d), "deal")?));
            }
        }
    }
    Ok(())
}
fn spread(s: &mut Sim, to: &[usize], msgs: &[(usize, dkg_structs::Response)]) {
    for (f, m) in msgs {
        for p in to {
            if p != f {
                let _ = s.parties[*p].dkg.process_response(m);
            }
        }
    }
}
/// a complaint about a session nobody uses, believed by those that miss the deal
fn foreign_complaint(c: &mut Case) -> Res {
    let mut s = manual(c)?;
    let r = sign_response::<Ped>(&s.parties[2].long, &[9u8; 32], 2, false)?;
    let bad = vec![(2usize, dkg_structs::Response { index: 0, response: r })];
    spread(&mut s, &[3], &bad);
    let mut msgs = vec![];
    honest_deals(&mut s, &[0, 1, 2, 3], &[(0, 2), (0, 3)], &mut msgs)?;
    spread(&mut s, &[0, 1, 2, 3], &msgs);
    spread(&mut s, &[0, 1], &bad);
    let outs = finish(&mut s, &[0, 1, 3]);
    c.ev("foreign-complaint-probe");
    ensure!(!disagree(&outs), "foreign-session-complaint", "a complaint naming another session made a participant missing the deal finish with another key");
    Ok(())
}

fn chain(c: &mut Case) -> Res {
    let max = if c.thorough() { 8 } else { 5 };
    let n = c.rng.range(2, max);
    let t = c.rng.range(2, n);
    let (mut longs, mut pubs) = keys(&mut c.rng, n)?;
    let mut old = if c.rng.chance(1, 3) {
        // a generated key
        let mut spec = fresh_spec(&mut c.rng, max)?;
        spec.byz.clear();
        spec.lossy = false;
        let mut sim = Sim::new(c, spec)?;
        sim.run(c, None)?;
        longs = sim.spec.longs.clone();
        pubs = sim.spec.pubs.clone();
        next_old(&sim, None)?
    } else {
        make_old(&mut c.rng, n, t)?
    };
    let rounds = c.rng.range(1, 3);
    for r in 0..rounds {
        if r == 0 && c.rng.chance(1, 4) {
            // somebody lost its share
            let i = c.rng.below(old.shares.len());
            old.shares[i] = None;
        }
        let spec = reshare_spec(&mut c.rng, old.clone(), longs.clone(), pubs.clone(), max)?;
        let mut sim = Sim::new(c, spec)?;
        sim.run(c, None)?;
        note(c, &sim);
        if sim.outputs.iter().flatten().count() < sim.spec.t {
            break;
        }
        old = next_old(&sim, Some(old.secret))?;
        longs = sim.spec.news.iter().map(|p| sim.spec.longs[*p].clone()).collect();
        pubs = sim.spec.news.iter().map(|p| sim.spec.pubs[*p]).collect();
        c.ev("round-completed");
    }
    Ok(())
}
fn next_old(sim: &Sim, secret: Option<[u8; 32]>) -> Res<Old> {
    let s = sim.outputs.iter().flatten().next().unwrap();
    let mut shares = vec![];
    let mut pts = vec![];
    for p in &sim.spec.news {
        match &sim.outputs[*p] {
            Some(s) => {
                let v = red(&sbytes(&s.share.v)?);
                pts.push((s.share.i, v));
                shares.push(Some(v));
            }
            None => shares.push(None),
        }
    }
    let secret = secret.unwrap_or_else(|| lagrange0(&pts[..sim.spec.t]));
    Ok(Old { t: sim.spec.t, commits: s.commits.clone(), secret, shares })
}

fn renew(c: &mut Case) -> Res {
    let n = c.rng.range(2, 7);
    let t = c.rng.range(1, n);
    let old = make_old(&mut c.rng, n, t)?;
    // a sharing of something
    let tz = if c.rng.chance(1, 3) { c.rng.range(1, n) } else { t };
    let kind = c.rng.below(4);
    let mut co = vec![];
    for i in 0..tz {
        co.push(if i == 0 && kind != 0 { [0u8; 32] } else { red(&c.rng.arr::<32>()) });
    }
    if kind == 0 && co[0] == [0u8; 32] {
        return Ok(());
    }
    let mut gc = vec![];
    for k in &co {
        gc.push(kp(&denc(&imul(k, &dbase())))?);
    }
    let zero = co[0] == [0u8; 32];
    c.log(format!("renew n={} t={} tz={} zero={}", n, t, tz, zero));
    let mut new = vec![];
    let mut commits: Option<Vec<Point>> = None;
    for i in 0..n {
        let d = Share { commits: old.commits.clone(), share: PriShare { i, v: ks(&old.shares[i].unwrap())? }, private_poly: vec![] };
        let gi = if kind == 3 && n > 1 { (i + 1) % n } else { i };
        let g = Share { commits: gc.clone(), share: PriShare { i: gi, v: ks(&poly_at(&co, gi))? }, private_poly: vec![] };
        let before = d.clone();
        let r = nopanic("renew", || d.renew(MonSuite {}, g))?;
        ensure!(before == d, "renew-receiver", "renewing changed the old share");
        let want = zero && tz == t && gi == i;
        match r {
            Err(_) => {
                ensure!(!want, "renew-refused", "refresh with a sharing of zero refused (n={} t={})", n, t);
                c.ev("renewal-refused");
            }
            Ok(s) => {
                ensure!(want, "renew-accepted", "refresh accepted: zero={} t={} tz={} index {} with {}", zero, t, tz, i, gi);
                ensure!(s.share.i == i && s.public() == old.commits[0], "renew-key", "refresh changed the key");
                let mut cs = vec![];
                for x in &s.commits {
                    cs.push(dalek_of(x)?);
                }
                ensure!(cs.len() == t, "renew-commits", "{} commitments", cs.len());
                let v = red(&sbytes(&s.share.v)?);
                ensure!(imul(&v, &dbase()) == commit_at(&cs, i), "renew-share", "refreshed share does not verify");
                if t > 1 && co[1..].iter().any(|x| *x != [0; 32]) && poly_at(&co, i) != [0; 32] {
                    ensure!(v != red(&old.shares[i].unwrap()), "renew-same", "share not refreshed");
                }
                if let Some(x) = &commits {
                    ensure!(*x == s.commits, "renew-agree", "refreshed commitments differ");
                }
                commits = Some(s.commits.clone());
                new.push((i, v));
                c.ev("renewed");
            }
        }
    }
    if new.len() >= t {
        let pick = c.rng.subset(new.len(), t);
        let pts: Vec<_> = pick.iter().map(|i| new[*i]).collect();
        ensure!(lagrange0(&pts) == red(&old.secret), "renew-reconstruct", "refreshed shares give another key");
        c.ev("renewed-reconstructed");
    }
    c.state(format!("{}{}{}{}", n, t, tz, kind).as_bytes());
    Ok(())
}

pub fn run_c21(ctx: &Ctx) {
    ctx.rule("every resharing outcome checked against the original secret and the prediction from the broadcast messages; non-trivial = distinct (faults, delivery order) pairs");
    ctx.assume("same broadcast channel as C20; indices in the new group differ from the old ones");
    ctx.family("reshare", ctx.n(500, 9000), chain);
    ctx.family("renew", ctx.n(600, 10000), renew);
    ctx.require("agreement-compared", 300);
    ctx.require("key-reconstructed", 200);
    ctx.require("mixed-generations-useless", 100);
    ctx.require("round-completed", 150);
    ctx.require("renewed-reconstructed", 50);
}

fn rabin(c: &mut Case) -> Res {
    let max = if c.thorough() { 8 } else { 6 };
    let mut sim = sim_rab::Sim::new(c, max, true)?;
    sim.run(c, None)?;
    let mut st = format!("{:?}{:?}{:?}{:?}{}", sim.said, sim.justified, sim.accused, sim.revealed, sim.t).into_bytes();
    st.extend(sim.delivered.iter().flat_map(|e| [e.to as u8, e.o as u8]));
    c.state(&st);
    Ok(())
}

/// by hand up to the end of phase one
fn rab_manual(c: &mut Case, n: usize, t: usize, withhold: Option<(usize, usize)>) -> Res<sim_rab::Sim> {
    let mut s = sim_rab::Sim::with(c, n, t, Default::default())?;
    let mut msgs = vec![];
    for o in 0..n {
        let m = ok(s.parties[o].dkg.deals(), "deals")?;
        for (k, d) in m {
            if withhold != Some((o, k)) {
                msgs.push((k, ok(s.parties[k].dkg.process_deal(&d), "deal")?));
            }
        }
    }
    for (f, m) in &msgs {
        for p in 0..n {
            if p != *f {
                let _ = s.parties[p].dkg.process_response(m);
            }
        }
    }
    for p in 0..n {
        s.parties[p].dkg.set_timeout();
    }
    Ok(s)
}
/// a dealer which keeps a deal back is qualified for the others only
fn withheld(c: &mut Case) -> Res {
    let mut s = rab_manual(c, 4, 2, Some((0, 3)))?;
    let mut scs = vec![];
    for p in 0..4 {
        scs.push(ok(s.parties[p].dkg.secret_commits(), "secret-commits")?);
    }
    for (o, sc) in scs.iter().enumerate() {
        for p in 0..4 {
            if p != o {
                let _ = s.parties[p].dkg.process_secret_commits(sc);
            }
        }
    }
    let outs: Vec<_> = (1..4).filter_map(|p| s.parties[p].dkg.dist_key_share().ok()).collect();
    c.ev("withheld-probe");
    ensure!(outs.windows(2).all(|w| w[0].commits == w[1].commits), "withheld-deal", "a dealer keeping one deal back made honest participants finish with different keys");
    Ok(())
}
/// a member revealing a share it never got spoils the reconstruction
fn false_share(c: &mut Case) -> Res {
    let mut s = rab_manual(c, 5, 3, None)?;
    let mut scs = vec![];
    for p in 0..5 {
        scs.push(ok(s.parties[p].dkg.secret_commits(), "secret-commits")?);
    }
    // dealer 0 publishes other commitments
    scs[0].commitments = sim_rab::commit_coeffs(&[[1; 32], [2; 32], [3; 32]].map(|x| red(&x)))?;
    scs[0].signature = ok(schnorr::sign(&MonSuite {}, &s.parties[0].long, &scs[0].hash(&MonSuite {}).unwrap()), "sign")?;
    let mut ccs = vec![];
    for (o, sc) in scs.iter().enumerate() {
        for p in 0..5 {
            if p != o {
                if let Some(cc) = ok(s.parties[p].dkg.process_secret_commits(sc), "process-secret-commits")? {
                    ccs.push(cc);
                }
            }
        }
    }
    let mut rcs = vec![];
    for p in 1..5 {
        for cc in &ccs {
            if cc.index as usize != p {
                rcs.push(ok(s.parties[p].dkg.process_complaint_commits(cc), "process-complaint")?);
                break;
            }
        }
    }
    // member 4 lies
    let rc = &mut rcs[3];
    rc.share.v = scalar(&mut c.rng)?;
    rc.signature = ok(schnorr::sign(&MonSuite {}, &s.parties[4].long, &rc.hash(&MonSuite {}).unwrap()), "sign")?;
    for p in 1..4 {
        for rc in rcs.iter().rev() {
            if rc.index as usize != p {
                let _ = s.parties[p].dkg.process_reconstruct_commits(rc);
            }
        }
    }
    c.ev("false-share-probe");
    let mut seen: Option<Vec<Point>> = None;
    for p in 1..4 {
        if let Ok(o) = s.parties[p].dkg.dist_key_share() {
            let mut cs = vec![];
            for x in &o.commits {
                cs.push(dalek_of(x)?);
            }
            let v = red(&sbytes(&o.share.v)?);
            ensure!(imul(&v, &dbase()) == commit_at(&cs, p), "reconstruct-false-share", "a false share revealed for an exposed dealer corrupts the reconstructed commitments");
            let same = seen.get_or_insert(o.commits.clone()) == &o.commits;
            ensure!(same, "reconstruct-false-share", "a false share revealed for an exposed dealer makes honest members finish with different keys");
        }
    }
    Ok(())
}

pub fn run_c22(ctx: &Ctx) {
    ctx.rule("judgement of every message, qualified set, completion, commitments and share of every honest member predicted from the broadcast messages and the dealers' polynomials; non-trivial = distinct (faults, delivery order) pairs");
    ctx.assume("causally ordered broadcast: honest members' messages reach everyone, everyone sees the same message of a dishonest one, after the messages it answers; every dealer sends its deal to all or to none (see known findings); dishonest members reveal true shares or none (see known findings); a qualified dealer silent in phase two stalls the run");
    ctx.family("rabin-dkg", ctx.n(700, 12000), rabin);
    ctx.family("withheld-deal", 1, withheld);
    ctx.family("false-share", 1, false_share);
    ctx.require("withheld-probe", 1);
    ctx.require("false-share-probe", 1);
    ctx.require("agreement-compared", 300);
    ctx.require("key-reconstructed", 200);
    ctx.require("reconstructed-dealer", 40);
    ctx.require("commit-complaint", 60);
    ctx.require("commit-complaint-refused", 60);
    ctx.require("justified", 60);
}

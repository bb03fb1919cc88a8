//! Ownership of the random choices of the code under test.
use crate::explore::Ctx;
use rand::verif::{set_hook, Answer, Point};
use std::cell::RefCell;
use std::rc::Rc;

/// Representatives of 64 uniform bits, as fractions of the unit interval: both tails of a
/// quantile transform around every quarter, the centre, both ends.
pub const RAW_MENU: [f64; 9] = [
    0.25,                     // Cauchy: +scale
    0.75,                     // Cauchy: -scale
    0.4999999999999999,       // Cauchy: far right tail
    0.5000000000000002,       // Cauchy: far left tail
    0.0,                      // Cauchy: no step
    0.47,                     // Cauchy: about +10 scales
    0.53,                     // Cauchy: about -10 scales
    0.1,                      // Cauchy: about +0.3 scales
    0.9999999999999999,       // Cauchy: no step, from below
];

pub fn raw64(frac: f64) -> u64 {
    // the 53 bits that rand turns into a float
    ((frac * (1u64 << 53) as f64) as u64) << 11
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Base {
    /// Bernoulli false, index 0, first representative
    False,
    /// Bernoulli true, index 0
    TrueFirst,
    /// Bernoulli true, last index
    TrueLast,
    /// alternating booleans, middle index
    Alternate,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Policy {
    /// The generator decides.
    Real,
    /// All options of every choice.
    Full,
    /// Defaults with deviations.
    Dev(Base),
    /// The generator decides except at deviations.
    RealDev,
    /// Every raw draw is the representative with this index, other choices are real.
    Drift(usize),
    /// The same, and every boolean is the likelier one.
    Steep(usize),
}

#[derive(Default, Clone, Debug)]
pub struct RngLog {
    pub bern_true: u32,
    pub bern: u32,
    pub range: u32,
    pub raw: u32,
    pub points: u32,
    /// product of the probabilities of the options taken
    pub prob: f64,
    pub raw_prob: f64,
    /// the same for booleans alone
    pub bern_prob: f64,
    pub exhausted: bool,
}

pub struct RngGuard {
    pub log: Rc<RefCell<RngLog>>,
    /// while false, the generator decides
    pub active: Rc<std::cell::Cell<bool>>,
}

impl Drop for RngGuard {
    fn drop(&mut self) {
        set_hook(None);
    }
}

pub const MAX_POINTS: u32 = 5_000_000;

/// `menu_len` restricts the raw menu; choices beyond `horizon` are left to the generator.
pub fn install(
    ctx: &Rc<RefCell<Ctx>>,
    policy: Policy,
    menu_len: usize,
    horizon: u32,
) -> RngGuard {
    let log = Rc::new(RefCell::new(RngLog {
        prob: 1.0,
        raw_prob: 1.0,
        bern_prob: 1.0,
        ..Default::default()
    }));
    let active = Rc::new(std::cell::Cell::new(true));
    let menu_len = menu_len.clamp(1, RAW_MENU.len());
    if policy != Policy::Real {
        let ctx = ctx.clone();
        let log2 = log.clone();
        let mut parity = 0u32;
        let active = active.clone();
        set_hook(Some(Box::new(move |p| {
            if !active.get() {
                return Answer::Real;
            }
            let mut ctx = ctx.borrow_mut();
            let mut log = log2.borrow_mut();
            ctx.steps += 1;
            log.points += 1;
            if log.points > MAX_POINTS {
                panic!("more than {MAX_POINTS} random choices in one step");
            }
            if log.points > horizon && !matches!(policy, Policy::Drift(_) | Policy::Steep(_)) {
                // e.g. rejection sampling: the script would never let it end
                log.exhausted = true;
                return Answer::Real;
            }
            let answer = match p {
                Point::Bernoulli(0) => Answer::Script(0),
                Point::Bernoulli(pi) => {
                    log.bern += 1;
                    let a = match policy {
                        Policy::Full => Answer::Script(ctx.choose(2) as u64),
                        Policy::Dev(b) => {
                            let d = match b {
                                Base::False => 0,
                                Base::TrueFirst | Base::TrueLast => 1,
                                Base::Alternate => {
                                    parity += 1;
                                    parity % 2
                                }
                            };
                            Answer::Script(ctx.deviate(2, d) as u64)
                        }
                        Policy::RealDev => match ctx.deviate(3, 0) {
                            0 => Answer::Real,
                            k => Answer::Override((k - 1) as u64),
                        },
                        Policy::Steep(_) => Answer::Script((pi >= 1 << 63) as u64),
                        Policy::Drift(_) | Policy::Real => Answer::Real,
                    };
                    if let Answer::Script(v) | Answer::Override(v) = a {
                        let pt = pi as f64 / 18446744073709551616.0;
                        log.prob *= if v != 0 { pt } else { 1.0 - pt };
                        log.bern_prob *= if v != 0 { pt } else { 1.0 - pt };
                        log.bern_true += (v != 0) as u32;
                    }
                    a
                }
                Point::Range(n) => {
                    log.range += 1;
                    let nn = n.min(64) as u32;
                    let idx = |k: u32| {
                        if n > 64 && k == nn - 1 {
                            n - 1
                        } else {
                            k as u64
                        }
                    };
                    log.prob /= n as f64;
                    match policy {
                        Policy::Full => Answer::Script(idx(ctx.choose(nn))),
                        Policy::Dev(b) => {
                            let d = match b {
                                Base::False | Base::TrueFirst => 0,
                                Base::TrueLast => nn - 1,
                                Base::Alternate => nn / 2,
                            };
                            Answer::Script(idx(ctx.deviate(nn, d)))
                        }
                        Policy::RealDev => match ctx.deviate(3, 0) {
                            0 => Answer::Real,
                            1 => Answer::Override(0),
                            _ => Answer::Override(n - 1),
                        },
                        Policy::Drift(_) | Policy::Steep(_) | Policy::Real => Answer::Real,
                    }
                }
                Point::Raw64 | Point::Raw32 => {
                    log.raw += 1;
                    log.raw_prob /= menu_len as f64;
                    let conv = |k: usize| {
                        let v = raw64(RAW_MENU[k]);
                        if p == Point::Raw32 {
                            v >> 32
                        } else {
                            v
                        }
                    };
                    match policy {
                        Policy::Full => Answer::Script(conv(ctx.choose(menu_len as u32) as usize)),
                        Policy::Dev(_) => {
                            Answer::Script(conv(ctx.deviate(menu_len as u32, 0) as usize))
                        }
                        Policy::RealDev => match ctx.deviate(menu_len as u32 + 1, 0) {
                            0 => Answer::Real,
                            k => Answer::Override(conv(k as usize - 1)),
                        },
                        Policy::Drift(k) | Policy::Steep(k) => Answer::Override(conv(k % RAW_MENU.len())),
                        Policy::Real => Answer::Real,
                    }
                }
            };
            answer
        })));
    }
    RngGuard { log, active }
}

//! Common parts of the conformance drivers: scenarios in, traces out.
//!
//! A scenario (one JSON object per line, produced by the TLA+ specification)
//! describes an engine; a driver builds it from the library's public types,
//! runs it and writes what it observes as one JSON object per event.  Numbers
//! are written as strings so that they survive unchanged.

pub mod docs;

use std::{
    cell::{Cell, RefCell},
    io::Write,
    rc::Rc,
    sync::mpsc,
    time::{Duration, Instant},
};

use serde_json::json;
pub use serde_json::Value as J;
use sett_rs::{
    api::RunResults,
    chx, fluid,
    fluid::Fluid,
    hhx, regen,
    types::{
        ConvergenceTolerance, HeatExchanger, LoopTolerance, MaxIters, OdeTolerance, ParasiticPower,
        RunInputs, RunSettings,
    },
    ws, Components, Engine, LuSolver, QrSolver, SvdDefaultSolver,
};

/// Read a number, which is a JSON number or a string
pub fn num(v: &J) -> f64 {
    match v {
        J::Number(n) => n.as_f64().unwrap(),
        J::String(s) => match s.as_str() {
            "Infinity" | "inf" => f64::INFINITY,
            "-Infinity" => f64::NEG_INFINITY,
            other => other.parse().unwrap_or_else(|_| panic!("bad number {other:?}")),
        },
        other => panic!("not a number: {other}"),
    }
}

/// Read an optional number
pub fn opt(v: &J, default: f64) -> f64 {
    if v.is_null() {
        default
    } else {
        num(v)
    }
}

/// Write a number
pub fn st(x: f64) -> J {
    if x.is_nan() {
        J::from("NaN")
    } else if x.is_infinite() {
        J::from(if x > 0. { "Infinity" } else { "-Infinity" })
    } else {
        J::from(format!("{x:?}"))
    }
}

pub fn strs(xs: &[f64]) -> J {
    J::Array(xs.iter().map(|&x| st(x)).collect())
}

/// A fluid described by a scenario
#[allow(non_snake_case)]
pub enum AnyFluid {
    Builtin(fluid::IdealGas),
    /// A thermodynamically consistent real gas, `v = R*T/P + b - a/T`
    Virial { R: f64, cv: f64, a: f64, b: f64, h0: f64 },
    /// A scripted fluid: constant density and partial derivatives, internal
    /// energy `cv*T` and enthalpy `kappa*T`, or a step function of temperature
    Script { rho: f64, cv: f64, kappa: f64, g: f64, r: f64, steps: Vec<(f64, f64)> },
    /// Any of the above, but one function misbehaves after some calls
    Faulty { base: Box<AnyFluid>, func: String, after: u64, value: f64, calls: Rc<Cell<u64>> },
}

/// So many calls and more are answered well again
const HEALED: u64 = u64::MAX / 2;

impl AnyFluid {
    pub fn new(v: &J) -> Self {
        match v["kind"].as_str().unwrap() {
            "helium" => Self::Builtin(fluid::IdealGas::helium()),
            "hydrogen" => Self::Builtin(fluid::IdealGas::hydrogen()),
            "virial" => Self::Virial {
                R: num(&v["R"]),
                cv: num(&v["cv"]),
                a: num(&v["a"]),
                b: num(&v["b"]),
                h0: opt(&v["h0"], 0.),
            },
            "script" => Self::Script {
                rho: num(&v["rho"]),
                cv: num(&v["cv"]),
                kappa: num(&v["kappa"]),
                g: num(&v["g"]),
                r: opt(&v["r"], 0.),
                steps: v["steps"]
                    .as_array()
                    .map(|a| a.iter().map(|p| (num(&p[0]), num(&p[1]))).collect())
                    .unwrap_or_default(),
            },
            "faulty" => Self::Faulty {
                base: Box::new(Self::new(&v["base"])),
                func: v["func"].as_str().unwrap().into(),
                after: num(&v["after"]) as u64,
                value: num(&v["value"]),
                calls: Rc::default(),
            },
            other => panic!("unknown fluid {other}"),
        }
    }

    fn fault(&self, func: &str) -> Option<f64> {
        if let Self::Faulty { func: f, after, value, calls, .. } = self {
            if f == func {
                calls.set(calls.get().saturating_add(1));
                return (calls.get() > *after && calls.get() < HEALED).then_some(*value);
            }
        }
        None
    }

    /// The number of calls to the function that misbehaves
    fn meter(&self) -> Rc<Cell<u64>> {
        match self {
            Self::Faulty { calls, .. } => calls.clone(),
            _ => Rc::default(),
        }
    }
}

#[allow(non_snake_case)]
impl fluid::Fluid for AnyFluid {
    fn dens(&self, T: f64, P: f64) -> f64 {
        match self {
            Self::Builtin(f) => f.dens(T, P),
            Self::Virial { R, a, b, .. } => 1. / (R * T / P + b - a / T),
            Self::Script { rho, .. } => *rho,
            Self::Faulty { base, .. } => self.fault("dens").unwrap_or_else(|| base.dens(T, P)),
        }
    }
    fn inte(&self, T: f64, P: f64) -> f64 {
        match self {
            Self::Builtin(f) => f.inte(T, P),
            Self::Virial { cv, a, h0, .. } => h0 + cv * T - a * P / T,
            Self::Script { cv, .. } => cv * T,
            Self::Faulty { base, .. } => self.fault("inte").unwrap_or_else(|| base.inte(T, P)),
        }
    }
    fn enth(&self, T: f64, P: f64) -> f64 {
        match self {
            Self::Builtin(f) => f.enth(T, P),
            Self::Virial { R, cv, a, b, h0 } => h0 + (cv + R) * T + P * (b - 2. * a / T),
            Self::Script { kappa, steps, .. } => steps
                .iter()
                .find(|(upper, _)| T <= *upper)
                .map_or(kappa * T, |(_, h)| *h),
            Self::Faulty { base, .. } => self.fault("enth").unwrap_or_else(|| base.enth(T, P)),
        }
    }
    fn cp(&self, T: f64, P: f64) -> f64 {
        match self {
            Self::Builtin(f) => f.cp(T, P),
            Self::Virial { R, cv, a, .. } => cv + R + 2. * a * P / (T * T),
            Self::Script { kappa, .. } => *kappa,
            Self::Faulty { base, .. } => self.fault("cp").unwrap_or_else(|| base.cp(T, P)),
        }
    }
    fn dd_dP_T(&self, T: f64, P: f64) -> f64 {
        match self {
            Self::Builtin(f) => f.dd_dP_T(T, P),
            Self::Virial { R, .. } => {
                let d = self.dens(T, P);
                d * d * R * T / (P * P)
            }
            Self::Script { g, .. } => *g,
            Self::Faulty { base, .. } => {
                self.fault("dd_dP_T").unwrap_or_else(|| base.dd_dP_T(T, P))
            }
        }
    }
    fn dd_dT_P(&self, T: f64, P: f64) -> f64 {
        match self {
            Self::Builtin(f) => f.dd_dT_P(T, P),
            Self::Virial { R, a, .. } => {
                let d = self.dens(T, P);
                -d * d * (R / P + a / (T * T))
            }
            Self::Script { r, .. } => *r,
            Self::Faulty { base, .. } => {
                self.fault("dd_dT_P").unwrap_or_else(|| base.dd_dT_P(T, P))
            }
        }
    }
    fn du_dP_T(&self, T: f64, P: f64) -> f64 {
        match self {
            Self::Builtin(f) => f.du_dP_T(T, P),
            Self::Virial { a, .. } => -a / T,
            Self::Script { .. } => 0.,
            Self::Faulty { base, .. } => {
                self.fault("du_dP_T").unwrap_or_else(|| base.du_dP_T(T, P))
            }
        }
    }
    fn du_dT_P(&self, T: f64, P: f64) -> f64 {
        match self {
            Self::Builtin(f) => f.du_dT_P(T, P),
            Self::Virial { cv, a, .. } => cv + a * P / (T * T),
            Self::Script { cv, .. } => *cv,
            Self::Faulty { base, .. } => {
                self.fault("du_dT_P").unwrap_or_else(|| base.du_dT_P(T, P))
            }
        }
    }
}

/// A drive whose volumes are a constant plus harmonics (not in the library)
struct Harmonic {
    freq: f64,
    comp: Vec<(f64, f64)>,
    exp: Vec<(f64, f64)>,
    /// rate added to the derivative only (scripted engines)
    rate: (f64, f64),
    res: ws::ThermalResistance,
    par: ws::Parasitics,
    /// how walls and losses depend on the pressures
    dep: J,
}

impl Harmonic {
    fn dep(&self, key: &str, s: &ws::State) -> f64 {
        match self.dep[key].as_array() {
            Some(c) => {
                let p = [s.pres.avg, s.pres.max, s.pres.min, s.pres.t_zero];
                1. + c.iter().zip(p).map(|(c, p)| num(c) * p * 1e-7).sum::<f64>()
            }
            None => 1.,
        }
    }
}

fn harmonics(freq: f64, terms: &[(f64, f64)], t: f64) -> (f64, f64) {
    let omega = 2. * std::f64::consts::PI * freq;
    let mut value = 0.;
    let mut deriv = 0.;
    for (i, (amp, phase)) in terms.iter().enumerate() {
        let i = i as f64;
        value += amp * (i * omega * t + phase).cos();
        deriv -= amp * i * omega * (i * omega * t + phase).sin();
    }
    (value, deriv)
}

impl ws::WorkingSpaces for Harmonic {
    fn frequency(&self, _: &ws::State) -> f64 {
        self.freq
    }
    fn volumes(&self, _: &ws::State) -> Box<dyn Fn(f64) -> (ws::CompVolume, ws::ExpVolume)> {
        let (freq, comp, exp, rate) = (self.freq, self.comp.clone(), self.exp.clone(), self.rate);
        Box::new(move |t| {
            let (vc, dc) = harmonics(freq, &comp, t);
            let (ve, de) = harmonics(freq, &exp, t);
            (
                ws::CompVolume { value: vc, deriv: dc + rate.0 },
                ws::ExpVolume { value: ve, deriv: de + rate.1 },
            )
        })
    }
    fn thermal_resistance(&self, s: &ws::State) -> ws::ThermalResistance {
        let mut res = self.res;
        res.comp *= self.dep("Rc", s);
        res.exp *= self.dep("Re", s);
        res
    }
    fn parasitics(&self, s: &ws::State) -> ws::Parasitics {
        let mut par = self.par;
        par.comp.mechanical *= self.dep("Wc", s);
        par.exp.mechanical *= self.dep("We", s);
        par.exp.thermal *= self.dep("Qe", s);
        par
    }
}

/// Text of a modern TOML configuration with the given rhombic drive
fn rhombic_toml(v: &J) -> String {
    let f = |k: &str| {
        let x = num(&v[k]);
        if x.is_infinite() {
            "inf".to_string()
        } else {
            format!("{x:e}")
        }
    };
    format!(
        "[engine.fluid.helium]\nmodel = \"ideal_gas\"\n\
         [engine.components.chx.fixed_approach]\nvol = 4e-5\nDT = 40\nR_hyd = 0\nW_parasitic = 0\n\
         [engine.components.hhx.fixed_approach]\nvol = 1e-4\nDT = 100\nR_hyd = 0\nW_parasitic = 0\nQ_parasitic = 0\n\
         [engine.components.regen.fixed_approach]\nvol = 1e-4\nDT = 10\nR_hyd = 0\nQ_parasitic = 0\n\
         [engine.components.ws.rhombic]\nfrequency = {}\nV_clearance_c = {}\nR_c = {}\nW_parasitic_c = {}\n\
         V_clearance_e = {}\nR_e = {}\nW_parasitic_e = {}\nQ_parasitic_e = {}\nr_crank = {}\nL_conn = {}\n\
         eccentricity = {}\nD_p = {}\nD_d = {}\n\
         [solver.inner_loop]\ntolerance = {{ abs = 1e-2, rel = 1e-4 }}\nmax_iterations = 10\n\
         [solver.outer_loop]\ntolerance = {{ abs = 1e-2, rel = 1e-4 }}\nmax_iterations = 10\n\
         [solver.ode]\ntolerance = {{ abs = 1e-8, rel = 1e-8 }}\nnum_timesteps = 20\n\
         [conditions]\ntemp_sink = 300\ntemp_source = 900\npres_zero = 1e6\n",
        f("f"), f("vcc"), f("Rc"), f("Wc"), f("vce"), f("Re"), f("We"), f("Qe"), f("r"), f("L"),
        f("ecc"), f("Dp"), f("Dd")
    )
}

pub fn parse_config<'de, T: serde::Deserialize<'de>>(text: &str, format: &str) -> Result<T, String> {
    let format = match format {
        "toml" => config::FileFormat::Toml,
        "yaml" => config::FileFormat::Yaml,
        _ => config::FileFormat::Json,
    };
    config::Config::builder()
        .add_source(config::File::from_str(text, format))
        .build()
        .map_err(|e| e.to_string())?
        .try_deserialize::<T>()
        .map_err(|e| e.to_string())
}

pub fn make_ws(v: &J) -> Box<dyn ws::WorkingSpaces> {
    let par = |side: &str| ParasiticPower {
        thermal: opt(&v[format!("Q{side}")], 0.),
        mechanical: opt(&v[format!("W{side}")], 0.),
        electrical: opt(&v[format!("El{side}")], 0.),
    };
    let res = ws::ThermalResistance {
        comp: opt(&v["Rc"], f64::INFINITY),
        exp: opt(&v["Re"], f64::INFINITY),
    };
    let parasitics = ws::Parasitics { comp: par("c"), exp: par("e") };
    match v["kind"].as_str().unwrap() {
        "sin" => Box::new(ws::SinusoidalDrive {
            frequency: num(&v["f"]),
            phase_angle: num(&v["phase"]),
            comp_geometry: ws::sinusoidal_drive::Geometry {
                clearance_volume: num(&v["vcc"]),
                swept_volume: num(&v["vsc"]),
            },
            exp_geometry: ws::sinusoidal_drive::Geometry {
                clearance_volume: num(&v["vce"]),
                swept_volume: num(&v["vse"]),
            },
            thermal_resistance: res,
            parasitics,
        }),
        "rhombic" => {
            let cfg: sett_rs::Config =
                parse_config(&rhombic_toml(v), "toml").expect("rhombic configuration");
            Components::from(cfg.engine.components).ws
        }
        "harm" => {
            let terms = |k: &str| {
                v[k].as_array()
                    .unwrap()
                    .iter()
                    .map(|p| (num(&p[0]), num(&p[1])))
                    .collect::<Vec<_>>()
            };
            Box::new(Harmonic {
                freq: num(&v["f"]),
                comp: terms("comp"),
                exp: terms("exp"),
                rate: (opt(&v["dc"], 0.), opt(&v["de"], 0.)),
                res,
                par: parasitics,
                dep: v["dep"].clone(),
            })
        }
        other => panic!("unknown ws {other}"),
    }
}

/// A heat exchanger law that is not in the library
#[derive(Clone)]
struct Law {
    v: J,
    par: ParasiticPower,
    calls: Cell<u64>,
}

impl Law {
    fn new(v: &J) -> Self {
        Self { v: v.clone(), par: parasitics(v), calls: Cell::new(0) }
    }

    fn volume(&self) -> f64 {
        num(&self.v["vol"])
    }

    fn initial(&self) -> f64 {
        num(&self.v["init"])
    }

    fn lin(&self, key: &str, h: &HeatExchanger) -> f64 {
        let c = &self.v[key];
        if c.is_null() {
            return 0.;
        }
        opt(&c["c"], 0.)
            + opt(&c["T"], 0.) * h.temp
            + opt(&c["P"], 0.) * h.pres
            + opt(&c["d"], 0.) * h.dens
            + opt(&c["cp"], 0.) * h.cp
            + opt(&c["m"], 0.) * h.m_dot
            + opt(&c["Q"], 0.) * h.Q_dot
    }

    fn r_hyd(&self, h: &HeatExchanger) -> f64 {
        num(&self.v["R_hyd"]) + self.lin("rlin", h)
    }

    fn parasitics(&self, h: &HeatExchanger) -> ParasiticPower {
        ParasiticPower {
            mechanical: self.par.mechanical + self.lin("wlin", h),
            thermal: self.par.thermal + self.lin("qlin", h),
            ..self.par
        }
    }

    /// `now` is the approach that corresponds to the given state
    fn approach(&self, h: &HeatExchanger, now: &dyn Fn(&[f64]) -> (usize, f64)) -> f64 {
        self.calls.set(self.calls.get() + 1);
        match self.v["law"].as_str().unwrap() {
            // a map between levels
            "map" => {
                let levels: Vec<f64> =
                    self.v["lv"].as_array().unwrap().iter().map(num).collect();
                let (i, _) = now(&levels);
                levels[self.v["f"][i].as_u64().unwrap() as usize - 1]
            }
            // a contraction (or expansion) towards `star`
            "affine" => {
                let (_, a) = now(&[]);
                num(&self.v["star"]) + num(&self.v["q"]) * (a - num(&self.v["star"]))
            }
            // a linear function of the state
            "lin" => self.lin("alin", h),
            // unusable after some calls
            "fault" => {
                if self.calls.get() > num(&self.v["after"]) as u64 {
                    num(&self.v["value"])
                } else {
                    self.initial() + 0.7f64.powi(self.calls.get() as i32)
                }
            }
            other => panic!("unknown law {other}"),
        }
    }
}

fn nearest(levels: &[f64], x: f64, of: impl Fn(f64) -> f64) -> (usize, f64) {
    let mut best = (0, f64::INFINITY);
    for (i, &l) in levels.iter().enumerate() {
        let d = (of(l) - x).abs();
        if d < best.1 {
            best = (i, d);
        }
    }
    (best.0, x)
}

impl chx::ColdHeatExchanger for Law {
    fn volume(&self) -> f64 {
        self.volume()
    }
    fn approach(&self, s: &chx::State) -> f64 {
        self.approach(&s.hxr, &|lv| nearest(lv, s.hxr.temp - s.sink_temp, |l| l))
    }
    fn hydraulic_resistance(&self, s: &chx::State) -> f64 {
        self.r_hyd(&s.hxr)
    }
    fn parasitics(&self, s: &chx::State) -> ParasiticPower {
        self.parasitics(&s.hxr)
    }
    fn initial_approach(&self) -> f64 {
        self.initial()
    }
}

impl hhx::HotHeatExchanger for Law {
    fn volume(&self) -> f64 {
        self.volume()
    }
    fn approach(&self, s: &hhx::State) -> f64 {
        self.approach(&s.hxr, &|lv| nearest(lv, s.source_temp - s.hxr.temp, |l| l))
    }
    fn hydraulic_resistance(&self, s: &hhx::State) -> f64 {
        self.r_hyd(&s.hxr)
    }
    fn parasitics(&self, s: &hhx::State) -> ParasiticPower {
        self.parasitics(&s.hxr)
    }
    fn initial_approach(&self) -> f64 {
        self.initial()
    }
}

/// Mean regenerator temperature with approach `a` and no imbalance
pub fn regen_mean(tk: f64, tl: f64, a: f64) -> f64 {
    let (c, h) = (tk + 0.5 * a, tl - 0.5 * a);
    if (h - c).abs() < 1e-9 {
        return h;
    }
    (h - c) / (h / c).ln()
}

impl regen::Regenerator for Law {
    fn volume(&self) -> f64 {
        self.volume()
    }
    fn approach(&self, s: &regen::State) -> f64 {
        self.approach(&s.hxr, &|lv| {
            let mean = |l| regen_mean(s.temp_chx, s.temp_hhx, l);
            let (i, _) = nearest(lv, s.hxr.temp, mean);
            // the mean temperature grows with the approach
            let (mut lo, mut hi) = (-1.5 * s.temp_chx, s.temp_hhx - s.temp_chx);
            for _ in 0..200 {
                let mid = 0.5 * (lo + hi);
                if mean(mid) < s.hxr.temp {
                    lo = mid;
                } else {
                    hi = mid;
                }
            }
            (i, 0.5 * (lo + hi))
        })
    }
    fn hydraulic_resistance(&self, s: &regen::State) -> f64 {
        self.r_hyd(&s.hxr)
    }
    fn parasitics(&self, s: &regen::State) -> ParasiticPower {
        self.parasitics(&s.hxr)
    }
    fn initial_approach(&self) -> f64 {
        self.initial()
    }
}

fn parasitics(v: &J) -> ParasiticPower {
    ParasiticPower {
        thermal: opt(&v["Q"], 0.),
        mechanical: opt(&v["W"], 0.),
        electrical: opt(&v["El"], 0.),
    }
}

macro_rules! make_hx {
    ($name:ident, $module:ident, $trait:path) => {
        pub fn $name(v: &J) -> Box<dyn $trait> {
            let (vol, r) = (num(&v["vol"]), num(&v["R_hyd"]));
            match v["kind"].as_str().unwrap() {
                "fa" => Box::new($module::FixedApproach::new(vol, r, num(&v["DT"]), parasitics(v))),
                "fc" => {
                    Box::new($module::FixedConductance::new(vol, r, num(&v["UA"]), parasitics(v)))
                }
                "law" => Box::new(Law::new(v)),
                other => panic!("unknown exchanger {other}"),
            }
        }
    };
}

make_hx!(make_chx, chx, chx::ColdHeatExchanger);
make_hx!(make_hhx, hhx, hhx::HotHeatExchanger);
make_hx!(make_regen, regen, regen::Regenerator);

pub fn make_components(sc: &J) -> Components {
    Components {
        ws: make_ws(&sc["ws"]),
        chx: make_chx(&sc["chx"]),
        regen: make_regen(&sc["regen"]),
        hhx: make_hhx(&sc["hhx"]),
    }
}

/// The calls made to the components of an engine
pub type Log = Rc<RefCell<Vec<J>>>;

struct Logged<T: ?Sized> {
    inner: Box<T>,
    log: Log,
}

fn hx_state(h: &HeatExchanger) -> J {
    json!({"temp": st(h.temp), "pres": st(h.pres), "dens": st(h.dens), "cp": st(h.cp),
           "m": st(h.m_dot), "Q": st(h.Q_dot)})
}

fn par_json(p: &ParasiticPower) -> J {
    json!({"thermal": st(p.thermal), "mechanical": st(p.mechanical), "electrical": st(p.electrical)})
}

impl<T: ?Sized> Logged<T> {
    fn note(&self, comp: &str, op: &str, h: &HeatExchanger, a: f64, b: f64, ret: J) {
        self.log.borrow_mut().push(json!({"ev": "call", "comp": comp, "op": op,
            "hx": hx_state(h), "a": st(a), "b": st(b), "ret": ret}));
    }
}

macro_rules! logged_hx {
    ($trait:path, $state:path, $comp:literal, |$s:ident| $a:expr, $b:expr) => {
        impl $trait for Logged<dyn $trait> {
            fn volume(&self) -> f64 {
                self.inner.volume()
            }
            fn approach(&self, $s: &$state) -> f64 {
                let r = self.inner.approach($s);
                self.note($comp, "approach", &$s.hxr, $a, $b, st(r));
                r
            }
            fn hydraulic_resistance(&self, $s: &$state) -> f64 {
                let r = self.inner.hydraulic_resistance($s);
                self.note($comp, "hydraulic", &$s.hxr, $a, $b, st(r));
                r
            }
            fn parasitics(&self, $s: &$state) -> ParasiticPower {
                let r = self.inner.parasitics($s);
                self.note($comp, "parasitics", &$s.hxr, $a, $b, par_json(&r));
                r
            }
            fn initial_approach(&self) -> f64 {
                let r = self.inner.initial_approach();
                self.log
                    .borrow_mut()
                    .push(json!({"ev": "call", "comp": $comp, "op": "initial", "ret": st(r)}));
                r
            }
        }
    };
}

logged_hx!(chx::ColdHeatExchanger, chx::State, "chx", |s| s.sink_temp, 0.);
logged_hx!(hhx::HotHeatExchanger, hhx::State, "hhx", |s| s.source_temp, 0.);
logged_hx!(regen::Regenerator, regen::State, "regen", |s| s.temp_chx, s.temp_hhx);

impl Logged<dyn ws::WorkingSpaces> {
    fn note_ws(&self, op: &str, s: &ws::State) {
        self.log.borrow_mut().push(json!({"ev": "wscall", "op": op, "avg": st(s.pres.avg),
            "max": st(s.pres.max), "min": st(s.pres.min), "zero": st(s.pres.t_zero)}));
    }
}

impl ws::WorkingSpaces for Logged<dyn ws::WorkingSpaces> {
    fn frequency(&self, s: &ws::State) -> f64 {
        self.note_ws("frequency", s);
        self.inner.frequency(s)
    }
    fn volumes(&self, s: &ws::State) -> Box<dyn Fn(f64) -> (ws::CompVolume, ws::ExpVolume)> {
        self.note_ws("volumes", s);
        self.inner.volumes(s)
    }
    fn thermal_resistance(&self, s: &ws::State) -> ws::ThermalResistance {
        self.note_ws("resistance", s);
        self.inner.thermal_resistance(s)
    }
    fn parasitics(&self, s: &ws::State) -> ws::Parasitics {
        self.note_ws("parasitics", s);
        self.inner.parasitics(s)
    }
}

pub fn logged_components(sc: &J, log: &Log) -> Components {
    let c = make_components(sc);
    Components {
        ws: Box::new(Logged { inner: c.ws, log: log.clone() }),
        chx: Box::new(Logged { inner: c.chx, log: log.clone() }),
        regen: Box::new(Logged { inner: c.regen, log: log.clone() }),
        hhx: Box::new(Logged { inner: c.hhx, log: log.clone() }),
    }
}

/// A working space state with the given pressures
///
/// The type of the pressures has no public path, so a value is taken from the
/// call that an engine makes to its working spaces.
pub fn ws_state(avg: f64, max: f64, min: f64, zero: f64) -> ws::State {
    struct Catch(Box<dyn ws::WorkingSpaces>, Rc<RefCell<Option<ws::State>>>);
    impl ws::WorkingSpaces for Catch {
        fn frequency(&self, s: &ws::State) -> f64 {
            *self.1.borrow_mut() = Some(ws::State { pres: s.pres });
            self.0.frequency(s)
        }
        fn volumes(&self, s: &ws::State) -> Box<dyn Fn(f64) -> (ws::CompVolume, ws::ExpVolume)> {
            self.0.volumes(s)
        }
        fn thermal_resistance(&self, s: &ws::State) -> ws::ThermalResistance {
            self.0.thermal_resistance(s)
        }
        fn parasitics(&self, s: &ws::State) -> ws::Parasitics {
            self.0.parasitics(s)
        }
    }
    let caught = Rc::new(RefCell::new(None));
    let drive = json!({"kind": "sin", "f": 50, "phase": 90, "vcc": 1e-4, "vsc": 1e-4, "vce": 1e-4, "vse": 1e-4});
    let components = Components {
        ws: Box::new(Catch(make_ws(&drive), caught.clone())),
        chx: Box::<chx::FixedApproach>::default(),
        regen: Box::<regen::FixedApproach>::default(),
        hhx: Box::<hhx::FixedApproach>::default(),
    };
    let tol = ConvergenceTolerance { abs: 1., rel: 1. };
    let settings = RunSettings {
        resolution: 2,
        loop_tol: LoopTolerance { inner: tol, outer: tol },
        ode_tol: OdeTolerance { abs: 1e-2, rel: 1e-2 },
        max_iters: MaxIters { inner: 1, outer: 1 },
    };
    let inputs = RunInputs { pres_zero: 1e6, temp_sink: 300., temp_source: 900. };
    let _ = sett_rs::Engine::run::<sett_rs::LuSolver>(components, fluid::IdealGas::helium(), inputs, settings);
    let mut state = caught.borrow_mut().take().expect("the engine asks for its frequency");
    state.pres.avg = avg;
    state.pres.max = max;
    state.pres.min = min;
    state.pres.t_zero = zero;
    state
}

pub fn make_inputs(sc: &J) -> RunInputs {
    let v = &sc["in"];
    RunInputs {
        pres_zero: num(&v["p"]),
        temp_sink: num(&v["ts"]),
        temp_source: num(&v["th"]),
    }
}

pub fn make_settings(sc: &J) -> RunSettings {
    let v = &sc["set"];
    RunSettings {
        resolution: num(&v["n"]) as u32,
        loop_tol: LoopTolerance {
            inner: ConvergenceTolerance { abs: num(&v["iabs"]), rel: num(&v["irel"]) },
            outer: ConvergenceTolerance { abs: num(&v["oabs"]), rel: num(&v["orel"]) },
        },
        ode_tol: OdeTolerance { abs: num(&v["dabs"]), rel: num(&v["drel"]) },
        max_iters: MaxIters {
            inner: num(&v["imax"]) as usize,
            outer: num(&v["omax"]) as usize,
        },
    }
}

/// The properties of a fluid in a state
pub fn fluid_at(f: &dyn fluid::Fluid, t: f64, p: f64) -> J {
    json!({"T": st(t), "P": st(p), "d": st(f.dens(t, p)), "u": st(f.inte(t, p)), "h": st(f.enth(t, p)),
           "cp": st(f.cp(t, p)), "g": st(f.dd_dP_T(t, p)), "r": st(f.dd_dT_P(t, p)),
           "up": st(f.du_dP_T(t, p)), "ut": st(f.du_dT_P(t, p))})
}

fn hx_conditions(v: &J) -> HeatExchanger {
    HeatExchanger {
        temp: num(&v["temp"]),
        pres: num(&v["pres"]),
        dens: num(&v["dens"]),
        cp: num(&v["cp"]),
        m_dot: num(&v["m"]),
        Q_dot: num(&v["Q"]),
    }
}

macro_rules! hx_out {
    ($name:ident, $trait:path, |$h:ident, $a:ident, $b:ident| $state:expr) => {
        /// What an exchanger reports in a state
        pub fn $name(c: &dyn $trait, s: &J) -> J {
            let ($h, $a, $b) = (hx_conditions(s), num(&s["a"]), num(&s["b"]));
            let _ = $b;
            let state = $state;
            let p = c.parasitics(&state);
            json!({"vol": st(c.volume()), "a": st(c.approach(&state)), "R": st(c.hydraulic_resistance(&state)),
                   "Q": st(p.thermal), "W": st(p.mechanical), "El": st(p.electrical),
                   "init": st(c.initial_approach())})
        }
    };
}

hx_out!(chx_out, chx::ColdHeatExchanger, |h, a, b| chx::State { hxr: h, sink_temp: a });
hx_out!(hhx_out, hhx::HotHeatExchanger, |h, a, b| hhx::State { hxr: h, source_temp: a });
hx_out!(regen_out, regen::Regenerator, |h, a, b| regen::State { hxr: h, temp_chx: a, temp_hhx: b });

/// What the working spaces report in a state
pub fn ws_out(w: &dyn ws::WorkingSpaces, s: &ws::State) -> J {
    let (res, par) = (w.thermal_resistance(s), w.parasitics(s));
    json!({"ev": "drive", "f": st(w.frequency(s)), "Rc": st(res.comp), "Re": st(res.exp),
        "Wc": st(par.comp.mechanical), "We": st(par.exp.mechanical), "Qc": st(par.comp.thermal),
        "Qe": st(par.exp.thermal), "Elc": st(par.comp.electrical), "Ele": st(par.exp.electrical)})
}

pub fn volumes_at(vols: &dyn Fn(f64) -> (ws::CompVolume, ws::ExpVolume), t: f64) -> J {
    let (c, e) = vols(t);
    json!({"t": st(t), "Vc": st(c.value), "dVc": st(c.deriv), "Ve": st(e.value), "dVe": st(e.deriv)})
}

fn props(f: &dyn fluid::Fluid, t: f64, p: f64) -> J {
    json!({"d": st(f.dens(t, p)), "u": st(f.inte(t, p)), "h": st(f.enth(t, p)),
           "g": st(f.dd_dP_T(t, p)), "r": st(f.dd_dT_P(t, p)),
           "up": st(f.du_dP_T(t, p)), "ut": st(f.du_dT_P(t, p))})
}

pub fn finish(i: usize, out: &str, msg: &str) -> J {
    json!({"ev": "end", "i": i, "out": out, "msg": msg})
}

/// Everything about an engine: its results, the laws of its components in the
/// reported conditions, and every point of its cycle
pub fn report(i: usize, sc: &J, engine: Engine<AnyFluid>, log: &Log, events: &mut Vec<J>) {
    // What the component laws say for the reported conditions
    let laws = guarded(|| {
        let c = make_components(sc);
        let s = &engine.state;
        let par = |p: sett_rs::types::ParasiticPower| json!({"Q": st(p.thermal), "W": st(p.mechanical)});
        let ws_par = c.ws.parasitics(&s.ws());
        let res = c.ws.thermal_resistance(&s.ws());
        json!({
            "chx": {"a": st(c.chx.approach(&s.chx())), "R": st(c.chx.hydraulic_resistance(&s.chx())),
                    "par": par(c.chx.parasitics(&s.chx())), "vol": st(c.chx.volume())},
            "regen": {"a": st(c.regen.approach(&s.regen())), "R": st(c.regen.hydraulic_resistance(&s.regen())),
                    "par": par(c.regen.parasitics(&s.regen())), "vol": st(c.regen.volume())},
            "hhx": {"a": st(c.hhx.approach(&s.hhx())), "R": st(c.hhx.hydraulic_resistance(&s.hhx())),
                    "par": par(c.hhx.parasitics(&s.hhx())), "vol": st(c.hhx.volume())},
            "ws": {"f": st(c.ws.frequency(&s.ws())), "Rc": st(res.comp), "Re": st(res.exp),
                   "c": par(ws_par.comp), "e": par(ws_par.exp)},
        })
    });
    let ws_pres = engine.state.pres;
    let calls = log.borrow().len();
    let results = guarded(|| RunResults::from(engine));
    let r = match results {
        Ok(r) => r,
        Err(msg) => {
            events.append(&mut log.borrow_mut());
            events.push(finish(i, "panic", &msg));
            return;
        }
    };
    for (k, call) in log.borrow_mut().drain(..).enumerate() {
        let mut call = call;
        call["late"] = J::from(k >= calls);
        events.push(call);
    }

    let v = &r.values;
    let lens: Vec<usize> = [
        &v.time, &v.P, &v.P_c, &v.P_e, &v.T_c, &v.T_e, &v.m_dot_ck, &v.m_dot_kr, &v.m_dot_rl,
        &v.m_dot_le, &v.Q_dot_k, &v.Q_dot_r, &v.Q_dot_l,
    ]
    .iter()
    .map(|x| x.len())
    .collect();
    let n = *lens.iter().min().unwrap();
    let finite = [
        &v.time, &v.P, &v.P_c, &v.P_e, &v.T_c, &v.T_e, &v.m_dot_ck, &v.m_dot_kr, &v.m_dot_rl,
        &v.m_dot_le, &v.Q_dot_k, &v.Q_dot_r, &v.Q_dot_l,
    ]
    .iter()
    .all(|x| x.iter().all(|y| y.is_finite()));
    let (laws, law_msg) = match laws {
        Ok(l) => (l, String::new()),
        Err(m) => (J::Null, m),
    };
    let mut end = json!({"ev": "res", "i": i, "msg": law_msg});
    for (key, value) in [
        ("lens", json!(lens)),
        ("seriesFinite", json!(finite)),
        ("laws", laws),
        ("temp", json!({"sink": st(r.temperature.sink), "chx": st(r.temperature.chx),
            "cold": st(r.temperature.regen_cold), "avg": st(r.temperature.regen_avg),
            "hot": st(r.temperature.regen_hot), "hhx": st(r.temperature.hhx),
            "source": st(r.temperature.source)})),
        ("pres", json!({"avg": st(r.pressure.avg), "max": st(r.pressure.max),
            "min": st(r.pressure.min), "zero": st(r.pressure.t_zero)})),
        ("mass", json!({"chx": st(r.mass_flow.chx), "regen": st(r.mass_flow.regen),
            "hhx": st(r.mass_flow.hhx)})),
        ("heat", json!({"chx": st(r.heat_flow.chx), "regen": st(r.heat_flow.regen),
            "hhx": st(r.heat_flow.hhx), "input": st(r.heat_flow.input),
            "rej": st(r.heat_flow.rejection)})),
        ("power", json!({"ideal": st(r.power.ideal_indicated), "ind": st(r.power.indicated),
            "shaft": st(r.power.shaft), "net": st(r.power.net)})),
        ("torque", st(r.shaft_torque)),
        ("eff", st(r.efficiency.mechanical)),
        ("effo", st(r.efficiency.overall)),
        ("imb", st(r.regen_imbalance)),
    ] {
        end[key] = value;
    }
    if n > 0 {
        end["last"] = json!({"t": st(v.time[n - 1]), "P": st(v.P[n - 1]), "Tc": st(v.T_c[n - 1]),
            "Te": st(v.T_e[n - 1])});
        end["first"] = json!({"t": st(v.time[0]), "P": st(v.P[0]), "Tc": st(v.T_c[0]),
            "Te": st(v.T_e[0])});
    }
    if sc["times"].as_bool().unwrap_or(false) {
        end["times"] = strs(&v.time);
    }
    if sc["series"].as_bool().unwrap_or(false) {
        end["series"] = json!({"t": strs(&v.time), "P": strs(&v.P), "Pc": strs(&v.P_c), "Pe": strs(&v.P_e),
            "Tc": strs(&v.T_c), "Te": strs(&v.T_e), "ck": strs(&v.m_dot_ck), "kr": strs(&v.m_dot_kr),
            "rl": strs(&v.m_dot_rl), "le": strs(&v.m_dot_le), "Qk": strs(&v.Q_dot_k), "Qr": strs(&v.Q_dot_r),
            "Ql": strs(&v.Q_dot_l)});
    }
    events.push(end);
    let detail = sc["detail"].as_bool().unwrap_or(true);
    if detail {
        let fluid = AnyFluid::new(&sc["fluid"]);
        let wsc = make_ws(&sc["ws"]);
        let vols = wsc.volumes(&ws::State { pres: ws_pres });
        let t = &r.temperature;
        for j in 0..n {
            let p = v.P[j];
            let (c, e) = vols(v.time[j]);
            events.push(json!({"ev": "point", "j": j, "t": st(v.time[j]), "P": st(p),
                "Pc": st(v.P_c[j]), "Pe": st(v.P_e[j]), "Tc": st(v.T_c[j]), "Te": st(v.T_e[j]),
                "ck": st(v.m_dot_ck[j]), "kr": st(v.m_dot_kr[j]), "rl": st(v.m_dot_rl[j]),
                "le": st(v.m_dot_le[j]), "Qk": st(v.Q_dot_k[j]), "Qr": st(v.Q_dot_r[j]),
                "Ql": st(v.Q_dot_l[j]),
                "Vc": st(c.value), "dVc": st(c.deriv), "Ve": st(e.value), "dVe": st(e.deriv),
                "c": props(&fluid, v.T_c[j], p), "k": props(&fluid, t.chx, p),
                "m": props(&fluid, t.regen_avg, p), "l": props(&fluid, t.hhx, p),
                "e": props(&fluid, v.T_e[j], p),
                "hc": st(fluid.enth(t.regen_cold, p)), "hh": st(fluid.enth(t.regen_hot, p))}));
        }
    }
    events.push(finish(i, "ok", ""));
}

/// Run the engine of a scenario
///
/// A gas that fails does so during the run only.  Calls are counted from the
/// end of the run that the gas would have had, where their number is negative.
pub fn execute(
    sc: &J,
    log: &Log,
) -> Result<Result<Engine<AnyFluid>, sett_rs::types::RunError>, String> {
    if sc["fluid"]["kind"] == "faulty" && num(&sc["fluid"]["after"]) < 0. {
        let mut counted = sc.clone();
        counted["fluid"]["after"] = J::from("1e15");
        let (meter, _) = attempt(&counted, &Log::default());
        counted["fluid"]["after"] = st((meter as f64 + num(&sc["fluid"]["after"])).max(0.));
        return attempt(&counted, log).1;
    }
    attempt(sc, log).1
}

type Outcome = Result<Result<Engine<AnyFluid>, sett_rs::types::RunError>, String>;

fn attempt(sc: &J, log: &Log) -> (u64, Outcome) {
    let fluid = AnyFluid::new(&sc["fluid"]);
    let meter = fluid.meter();
    let outcome = guarded(|| {
        let components = if sc["log"].is_null() {
            make_components(sc)
        } else {
            logged_components(sc, log)
        };
        let (inputs, settings) = (make_inputs(sc), make_settings(sc));
        match sc["solver"].as_str().unwrap_or("lu") {
            "lu" => Engine::run::<LuSolver>(components, fluid, inputs, settings),
            "qr" => Engine::run::<QrSolver>(components, fluid, inputs, settings),
            _ => Engine::run::<SvdDefaultSolver>(components, fluid, inputs, settings),
        }
    });
    (meter.replace(HEALED), outcome)
}

/// Run the engine of a scenario and report everything about it
pub fn run_one(i: usize, sc: &J) -> Vec<J> {
    let mut events = vec![json!({"ev": "begin", "i": i, "sc": sc})];
    let log = Log::default();
    let engine = match execute(sc, &log) {
        Err(msg) => {
            events.append(&mut log.borrow_mut());
            events.push(finish(i, "panic", &msg));
            return events;
        }
        Ok(Err(e)) => {
            let out = match e {
                sett_rs::types::RunError::InnerLoop => "inner",
                sett_rs::types::RunError::OuterLoop => "outer",
            };
            events.append(&mut log.borrow_mut());
            events.push(finish(i, out, ""));
            return events;
        }
        Ok(Ok(engine)) => engine,
    };

    report(i, sc, engine, &log, &mut events);
    events
}

/// Run `f`, reporting a panic as its message
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| (*s).to_string()))
            .unwrap_or_else(|| "panic".into())
    })
}

/// Read the scenarios given as the first argument, one per line
pub fn read_lines(path: &str) -> Vec<J> {
    std::fs::read_to_string(path)
        .unwrap_or_else(|e| panic!("cannot read {path}: {e}"))
        .lines()
        .filter(|l| !l.trim().is_empty())
        .map(|l| serde_json::from_str(l).expect("scenario is valid JSON"))
        .collect()
}

/// Run every scenario of the file `args[1]` with `f` on several threads and
/// write the events they return, in order, to the file `args[2]`
///
/// `hang` provides the events of a scenario that did not return in time.
pub fn drive(f: fn(usize, &J) -> Vec<J>, hang: fn(usize, &J) -> Vec<J>) {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let scenarios = std::sync::Arc::new(read_lines(&args[1]));
    let limit = Duration::from_secs(
        std::env::var("HARNESS_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(60),
    );
    let workers = std::env::var("HARNESS_WORKERS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map_or(4, usize::from));
    let n = scenarios.len();
    let mut out: Vec<Option<Vec<J>>> = vec![None; n];
    let next = std::sync::Arc::new(std::sync::atomic::AtomicUsize::new(0));
    let (tx, rx) = mpsc::channel::<(usize, Option<String>)>();
    let spawn = |k: usize| {
        let (tx, next, scenarios) = (tx.clone(), next.clone(), scenarios.clone());
        std::thread::Builder::new()
            .name(format!("worker{k}"))
            .stack_size(16 << 20)
            .spawn(move || loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                if i >= scenarios.len() {
                    return;
                }
                let _ = tx.send((i, None)); // started
                let events = f(i, &scenarios[i]);
                let text = events.iter().map(|e| e.to_string() + "\n").collect::<String>();
                let _ = tx.send((i, Some(text)));
            })
            .unwrap();
    };
    for k in 0..workers.min(n) {
        spawn(k);
    }
    let mut text: Vec<Option<String>> = vec![None; n];
    let mut started = std::collections::HashMap::<usize, Instant>::new();
    let mut done = 0;
    let mut hangs = 0;
    while done < n && hangs < 4 {
        match rx.recv_timeout(Duration::from_millis(200)) {
            Ok((i, None)) => {
                started.insert(i, Instant::now());
            }
            Ok((i, Some(t))) => {
                if started.remove(&i).is_some() {
                    text[i] = Some(t);
                    done += 1;
                }
            }
            Err(_) => {}
        }
        let late: Vec<usize> =
            started.iter().filter(|(_, t)| t.elapsed() > limit).map(|(i, _)| *i).collect();
        for i in late {
            started.remove(&i);
            hangs += 1;
            out[i] = Some(hang(i, &scenarios[i]));
            done += 1;
            spawn(i); // the stuck thread is abandoned
        }
    }
    let mut file = std::io::BufWriter::new(std::fs::File::create(&args[2]).expect("output file"));
    for i in 0..n {
        if let Some(t) = &text[i] {
            file.write_all(t.as_bytes()).unwrap();
        } else if let Some(events) = &out[i] {
            for e in events {
                writeln!(file, "{e}").unwrap();
            }
        }
    }
    file.flush().unwrap();
    std::process::exit(0);
}

//! The real filters of the library, behind one object-safe interface.
//!
//! Everything below the `Rig` trait is the library's real code; the rigs only choose storage,
//! dimensions and which of the library's public entry points are called.

use crate::plan::{RigKind, Slot};
use crate::scalar::Dyn;
use crate::storage::*;
use minikalman::buffers::types::*;
use std::ops::{Index, IndexMut};
use minikalman::extended::{self as ext, ExtendedKalmanBuilder, ExtendedObservationBuilder};
use minikalman::prelude::*;
use minikalman::regular::{
    self as reg, ControlBuilder, RegularKalmanBuilder, RegularObservationBuilder,
};

pub const API_TRAIT: u32 = 1; // call steps through the traits rather than inherent methods
pub const API_SET_SHIFT: u32 = 1; // 2 bits: how matrices are written
pub const API_CB_SHIFT: u32 = 3; // 2 bits: how callbacks access their arguments
pub const API_GET: u32 = 32; // read through the traits
pub const API_DIRECT: u32 = 64; // slice rig: call the observation/control object directly
pub const API_IMMUT: u32 = 128; // slice rig: configuration in immutable buffers
pub const API_COPY: u32 = 256; // read and write by whole rows, columns and matrices
pub const API_BUF: u32 = 512; // read and write the buffers themselves, not their matrices
pub const API_LAZY: u32 = 1024; // inputs are written only when they change
pub const API_ALL: u32 = 2047;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Dims {
    pub s: usize,
    pub o: [usize; 3],
    pub c: [usize; 2],
}

impl Dims {
    pub fn len(&self, s: Slot) -> usize {
        let (n, o, c) = (self.s, &self.o, &self.c);
        match s {
            Slot::X => n,
            Slot::P | Slot::A | Slot::Q => n * n,
            Slot::H(i) => o[i as usize] * n,
            Slot::R(i) => o[i as usize] * o[i as usize],
            Slot::Z(i) => o[i as usize],
            Slot::B(j) => n * c[j as usize],
            Slot::Qc(j) => c[j as usize] * c[j as usize],
            Slot::U(j) => c[j as usize],
        }
    }
    pub fn slots(&self, ext: bool) -> Vec<Slot> {
        let mut v = vec![Slot::X, Slot::P, Slot::A, Slot::Q];
        for i in 0..3 {
            v.extend([Slot::H(i), Slot::R(i), Slot::Z(i)]);
        }
        if !ext {
            for j in 0..2 {
                v.extend([Slot::B(j), Slot::Qc(j), Slot::U(j)]);
            }
        }
        v
    }
}

/// The user callback: gets the estimate and a writer for the output vector.
pub type Cb<'a> = &'a mut dyn FnMut(&[Dyn], &mut dyn FnMut(usize, Dyn));

pub trait Rig: Send {
    fn dims(&self) -> Dims;
    fn get(&mut self, s: Slot) -> Vec<u64>;
    fn set(&mut self, s: Slot, v: &[Dyn]);
    fn predict(&mut self);
    fn predict_tuned(&mut self, l: Dyn);
    fn control(&mut self, j: u8);
    fn correct(&mut self, i: u8);
    fn predict_nl(&mut self, f: Cb);
    fn predict_tuned_nl(&mut self, l: Dyn, f: Cb);
    fn correct_nl(&mut self, i: u8, f: Cb);
    fn arena(&mut self) -> Option<&mut Arena>;
}

fn put<const R: usize, const C: usize, M: MatrixMut<R, C, Dyn>>(api: u32, m: &mut M, v: &[Dyn]) {
    assert_eq!(v.len(), R * C, "harness: wrong value count");
    if v.is_empty() {
        return;
    }
    match (api >> API_SET_SHIFT) & 3 | (api & API_COPY) {
        256 => {
            let mut v = v.to_vec();
            m.copy_from(&MatrixData::new_mut::<R, C, Dyn>(&mut v))
        }
        257 => MatrixData::new_ref::<R, C, Dyn>(v).copy_to(m),
        258 => {
            m.set_all(v[0]);
            for (i, v) in v.iter().enumerate() {
                let (r, c) = (i / C, i % C);
                if v.0 != m.get(r, c).0 {
                    m.set(r, c, *v);
                }
            }
        }
        259 => {
            m.clear();
            for r in 0..R {
                for c in 0..C {
                    let x = v[r * C + c];
                    let sym = R == C && x.0 == v[c * C + r].0;
                    if sym && c <= r {
                        m.set_symmetric(r, c, x);
                    } else if !sym {
                        m.set(r, c, x);
                    }
                }
            }
        }
        0 => m.as_mut_slice()[..R * C].copy_from_slice(v),
        1 => {
            for r in 0..R {
                for c in 0..C {
                    m.apply(|m| m.set(r, c, v[r * C + c]));
                }
            }
        }
        2 => {
            for (i, v) in v.iter().enumerate() {
                m[i] = *v;
            }
        }
        _ => {
            for r in 0..R {
                for c in 0..C {
                    m.set_at(r, c, v[r * C + c]);
                }
            }
        }
    }
}

fn take<const R: usize, const C: usize, M: Matrix<R, C, Dyn>>(api: u32, m: &M) -> Vec<u64> {
    if R * C == 0 {
        return vec![];
    }
    let mut out = vec![Dyn(0); R * C];
    let ids = |v: &[Dyn]| v.iter().map(|d| d.0).collect();
    match (api >> API_SET_SHIFT) & 3 | (api & API_COPY) {
        256 => {
            m.copy_to(&mut MatrixData::new_mut::<R, C, Dyn>(&mut out));
            ids(&out)
        }
        257 => {
            for r in 0..R {
                m.get_row_copy(r, &mut out[r * C..(r + 1) * C]);
            }
            ids(&out)
        }
        258 | 259 => {
            let mut col = [Dyn(0); R];
            for c in 0..C {
                m.get_column_copy(c, &mut col);
                for r in 0..R {
                    out[r * C + c] = col[r];
                }
            }
            ids(&out)
        }
        0 => m.as_slice()[..R * C].iter().map(|d| d.0).collect(),
        1 => (0..R * C).map(|i| m.inspect(|m| m.get(i / C, i % C)).0).collect(),
        2 => (0..R * C).map(|i| m[i].0).collect(),
        _ => (0..R * C).map(|i| m.get_at(i / C, i % C).0).collect(),
    }
}

/// The same through the buffer's own element access.
fn put_buf<const R: usize, const C: usize, B>(api: u32, b: &mut B, v: &[Dyn])
where
    B: RowMajorSequentialDataMut<R, C, Dyn> + IndexMut<usize, Output = Dyn>,
{
    assert_eq!(v.len(), R * C, "harness: wrong value count");
    match (api >> API_SET_SHIFT) & 3 {
        0 => b.as_mut_slice()[..R * C].copy_from_slice(v),
        1 => {
            for (i, v) in v.iter().enumerate() {
                b[i] = *v;
            }
        }
        _ => {
            for i in 0..R * C {
                b.set_at(i / C, i % C, v[i]);
            }
        }
    }
}

fn take_buf<const R: usize, const C: usize, B>(api: u32, b: &B) -> Vec<u64>
where
    B: RowMajorSequentialData<R, C, Dyn> + Index<usize, Output = Dyn>,
{
    match (api >> API_SET_SHIFT) & 3 {
        0 => b.as_slice()[..R * C].iter().map(|d| d.0).collect(),
        1 => (0..R * C).map(|i| b[i].0).collect(),
        _ => (0..R * C).map(|i| b.get_at(i / C, i % C).0).collect(),
    }
}

macro_rules! tk {
    ($R:tt, $C:tt, $a:expr, $e:expr) => {{
        let b = $e;
        if $a & API_BUF != 0 {
            take_buf::<$R, $C, _>($a, b)
        } else {
            take::<$R, $C, _>($a, b.as_matrix())
        }
    }};
}
macro_rules! pt {
    ($R:tt, $C:tt, $a:expr, $e:expr, $v:expr) => {{
        let b = $e;
        if $a & API_BUF != 0 {
            put_buf::<$R, $C, _>($a, b, $v)
        } else {
            put::<$R, $C, _>($a, b.as_matrix_mut(), $v)
        }
    }};
}

fn call_cb<const S: usize, const N: usize, X, Y>(api: u32, x: &X, out: &mut Y, f: Cb)
where
    X: AsMatrix<S, 1, Dyn> + Index<usize, Output = Dyn>,
    Y: AsMatrixMut<N, 1, Dyn> + IndexMut<usize, Output = Dyn>,
{
    crate::alloc::pause(|| {
        let style = (api >> API_CB_SHIFT) & 3;
        let m = x.as_matrix();
        let xs: Vec<Dyn> = match style {
            0 => m.as_slice()[..S].to_vec(),
            1 => (0..S).map(|i| m.get_at(i, 0)).collect(),
            2 => (0..S).map(|i| m[i]).collect(),
            _ => (0..S).map(|i| x[i]).collect(),
        };
        f(&xs, &mut |i, v| {
            if style == 3 {
                out[i] = v;
                return;
            }
            let m = out.as_matrix_mut();
            match style {
                0 => m.as_mut_slice()[i] = v,
                1 => m.set_row(i, v),
                _ => m[i] = v,
            }
        });
    })
}

// ------------------------------------------------------------------------------------------
// Rigs around long-lived filter objects

pub struct RegRig<F, O1, O2, O3, C1, C2> {
    api: u32,
    f: F,
    o1: O1,
    o2: O2,
    o3: O3,
    c1: C1,
    c2: C2,
    arena: Option<Arena>,
}

pub struct ExtRig<F, O1, O2, O3> {
    api: u32,
    f: F,
    o1: O1,
    o2: O2,
    o3: O3,
    arena: Option<Arena>,
}

macro_rules! reg_methods {
    ($S:expr, $O1:expr, $O2:expr, $O3:expr, $C1:expr, $C2:expr) => {
        fn dims(&self) -> Dims {
            Dims { s: $S, o: [$O1, $O2, $O3], c: [$C1, $C2] }
        }
        fn get(&mut self, s: Slot) -> Vec<u64> {
            let a = self.api;
            let t = a & API_GET != 0;
            match s {
                Slot::X if t => tk!({ $S }, 1, a, KalmanFilterStateVector::state_vector(&self.f)),
                Slot::X => tk!({ $S }, 1, a, self.f.state_vector()),
                Slot::P if t => tk!({ $S }, { $S }, a, KalmanFilterEstimateCovariance::estimate_covariance(&self.f)),
                Slot::P => tk!({ $S }, { $S }, a, self.f.estimate_covariance()),
                Slot::A if t => tk!({ $S }, { $S }, a, KalmanFilterStateTransition::state_transition(&self.f)),
                Slot::A => tk!({ $S }, { $S }, a, self.f.state_transition()),
                Slot::Q => tk!({ $S }, { $S }, a, self.f.direct_process_noise()),
                Slot::H(0) => tk!({ $O1 }, { $S }, a, self.o1.observation_matrix()),
                Slot::H(1) => tk!({ $O2 }, { $S }, a, self.o2.observation_matrix()),
                Slot::H(_) => tk!({ $O3 }, { $S }, a, KalmanFilterObservationTransformation::observation_matrix(&self.o3)),
                Slot::R(0) => tk!({ $O1 }, { $O1 }, a, self.o1.measurement_noise_covariance()),
                Slot::R(1) => tk!({ $O2 }, { $O2 }, a, self.o2.measurement_noise_covariance()),
                Slot::R(_) => tk!({ $O3 }, { $O3 }, a, KalmanFilterMeasurementNoiseCovariance::measurement_noise_covariance(&self.o3)),
                Slot::Z(0) => tk!({ $O1 }, 1, a, self.o1.measurement_vector()),
                Slot::Z(1) => tk!({ $O2 }, 1, a, self.o2.measurement_vector()),
                Slot::Z(_) => tk!({ $O3 }, 1, a, KalmanFilterMeasurementVector::measurement_vector(&self.o3)),
                Slot::B(0) => tk!({ $S }, { $C1 }, a, self.c1.control_matrix()),
                Slot::B(_) => tk!({ $S }, { $C2 }, a, KalmanFilterControlTransition::control_matrix(&self.c2)),
                Slot::Qc(0) => tk!({ $C1 }, { $C1 }, a, self.c1.process_noise_covariance()),
                Slot::Qc(_) => tk!({ $C2 }, { $C2 }, a, KalmanFilterControlProcessNoiseCovariance::process_noise_covariance(&self.c2)),
                Slot::U(0) => tk!({ $C1 }, 1, a, self.c1.control_vector()),
                Slot::U(_) => tk!({ $C2 }, 1, a, KalmanFilterControlVector::control_vector(&self.c2)),
            }
        }
        fn set(&mut self, s: Slot, v: &[Dyn]) {
            let a = self.api;
            let t = a & API_GET != 0;
            match s {
                Slot::X if t => pt!({ $S }, 1, a, KalmanFilterStateVectorMut::state_vector_mut(&mut self.f), v),
                Slot::X => pt!({ $S }, 1, a, self.f.state_vector_mut(), v),
                Slot::P if t => pt!({ $S }, { $S }, a, KalmanFilterEstimateCovarianceMut::estimate_covariance_mut(&mut self.f), v),
                Slot::P => pt!({ $S }, { $S }, a, self.f.estimate_covariance_mut(), v),
                Slot::A if t => pt!({ $S }, { $S }, a, KalmanFilterStateTransitionMut::state_transition_mut(&mut self.f), v),
                Slot::A => pt!({ $S }, { $S }, a, self.f.state_transition_mut(), v),
                Slot::Q => pt!({ $S }, { $S }, a, self.f.direct_process_noise_mut(), v),
                Slot::H(0) => pt!({ $O1 }, { $S }, a, self.o1.observation_matrix_mut(), v),
                Slot::H(1) => pt!({ $O2 }, { $S }, a, self.o2.observation_matrix_mut(), v),
                Slot::H(_) => pt!({ $O3 }, { $S }, a, KalmanFilterObservationTransformationMut::observation_matrix_mut(&mut self.o3), v),
                Slot::R(0) => pt!({ $O1 }, { $O1 }, a, self.o1.measurement_noise_covariance_mut(), v),
                Slot::R(1) => pt!({ $O2 }, { $O2 }, a, self.o2.measurement_noise_covariance_mut(), v),
                Slot::R(_) => pt!({ $O3 }, { $O3 }, a, KalmanFilterMeasurementNoiseCovarianceMut::measurement_noise_covariance_mut(&mut self.o3), v),
                Slot::Z(0) => pt!({ $O1 }, 1, a, self.o1.measurement_vector_mut(), v),
                Slot::Z(1) => pt!({ $O2 }, 1, a, self.o2.measurement_vector_mut(), v),
                Slot::Z(_) => pt!({ $O3 }, 1, a, KalmanFilterObservationVectorMut::measurement_vector_mut(&mut self.o3), v),
                Slot::B(0) => pt!({ $S }, { $C1 }, a, self.c1.control_matrix_mut(), v),
                Slot::B(_) => pt!({ $S }, { $C2 }, a, KalmanFilterControlTransitionMut::control_matrix_mut(&mut self.c2), v),
                Slot::Qc(0) => pt!({ $C1 }, { $C1 }, a, self.c1.process_noise_covariance_mut(), v),
                Slot::Qc(_) => pt!({ $C2 }, { $C2 }, a, KalmanFilterControlProcessNoiseMut::process_noise_covariance_mut(&mut self.c2), v),
                Slot::U(0) => pt!({ $C1 }, 1, a, self.c1.control_vector_mut(), v),
                Slot::U(_) => pt!({ $C2 }, 1, a, KalmanFilterControlVectorMut::control_vector_mut(&mut self.c2), v),
            }
        }
        fn predict(&mut self) {
            if self.api & API_TRAIT != 0 {
                KalmanFilterPredict::predict(&mut self.f)
            } else {
                self.f.predict()
            }
        }
        fn predict_tuned(&mut self, l: Dyn) {
            self.f.predict_tuned(l)
        }
        fn control(&mut self, j: u8) {
            match (self.api & API_TRAIT != 0, j) {
                (false, 0) => self.f.control(&mut self.c1),
                (false, _) => self.f.control(&mut self.c2),
                (true, 0) => KalmanFilterApplyControl::control(&mut self.f, &mut self.c1),
                (true, _) => KalmanFilterApplyControl::control(&mut self.f, &mut self.c2),
            }
        }
        fn correct(&mut self, i: u8) {
            match (self.api & API_TRAIT != 0, i) {
                (false, 0) => self.f.correct(&mut self.o1),
                (false, 1) => self.f.correct(&mut self.o2),
                (false, _) => self.f.correct(&mut self.o3),
                (true, 0) => KalmanFilterUpdate::correct(&mut self.f, &mut self.o1),
                (true, 1) => KalmanFilterUpdate::correct(&mut self.f, &mut self.o2),
                (true, _) => KalmanFilterUpdate::correct(&mut self.f, &mut self.o3),
            }
        }
        fn predict_nl(&mut self, _: Cb) {
            unreachable!("harness: nonlinear step on a regular filter")
        }
        fn predict_tuned_nl(&mut self, _: Dyn, _: Cb) {
            unreachable!("harness: nonlinear step on a regular filter")
        }
        fn correct_nl(&mut self, _: u8, _: Cb) {
            unreachable!("harness: nonlinear step on a regular filter")
        }
        fn arena(&mut self) -> Option<&mut Arena> {
            self.arena.as_mut()
        }
    };
}

macro_rules! ext_methods {
    ($S:expr, $O1:expr, $O2:expr, $O3:expr) => {
        fn dims(&self) -> Dims {
            Dims { s: $S, o: [$O1, $O2, $O3], c: [0, 0] }
        }
        fn get(&mut self, s: Slot) -> Vec<u64> {
            let a = self.api;
            let t = a & API_GET != 0;
            match s {
                Slot::X if t => tk!({ $S }, 1, a, KalmanFilterStateVector::state_vector(&self.f)),
                Slot::X => tk!({ $S }, 1, a, self.f.state_vector()),
                Slot::P if t => tk!({ $S }, { $S }, a, KalmanFilterEstimateCovariance::estimate_covariance(&self.f)),
                Slot::P => tk!({ $S }, { $S }, a, self.f.estimate_covariance()),
                Slot::A if t => tk!({ $S }, { $S }, a, ExtendedKalmanFilterStateTransition::state_transition_jacobian(&self.f)),
                Slot::A => tk!({ $S }, { $S }, a, self.f.state_transition_jacobian()),
                Slot::Q => tk!({ $S }, { $S }, a, self.f.direct_process_noise()),
                Slot::H(0) => tk!({ $O1 }, { $S }, a, self.o1.observation_jacobian_matrix()),
                Slot::H(1) => tk!({ $O2 }, { $S }, a, self.o2.observation_jacobian_matrix()),
                Slot::H(_) => tk!({ $O3 }, { $S }, a, ExtendedKalmanFilterObservationTransformation::observation_jacobian_matrix(&self.o3)),
                Slot::R(0) => tk!({ $O1 }, { $O1 }, a, self.o1.measurement_noise_covariance()),
                Slot::R(1) => tk!({ $O2 }, { $O2 }, a, self.o2.measurement_noise_covariance()),
                Slot::R(_) => tk!({ $O3 }, { $O3 }, a, KalmanFilterMeasurementNoiseCovariance::measurement_noise_covariance(&self.o3)),
                Slot::Z(0) => tk!({ $O1 }, 1, a, self.o1.measurement_vector()),
                Slot::Z(1) => tk!({ $O2 }, 1, a, self.o2.measurement_vector()),
                Slot::Z(_) => tk!({ $O3 }, 1, a, KalmanFilterMeasurementVector::measurement_vector(&self.o3)),
                _ => unreachable!("harness: control slot on an extended filter"),
            }
        }
        fn set(&mut self, s: Slot, v: &[Dyn]) {
            let a = self.api;
            let t = a & API_GET != 0;
            match s {
                Slot::X if t => pt!({ $S }, 1, a, KalmanFilterStateVectorMut::state_vector_mut(&mut self.f), v),
                Slot::X => pt!({ $S }, 1, a, self.f.state_vector_mut(), v),
                Slot::P if t => pt!({ $S }, { $S }, a, KalmanFilterEstimateCovarianceMut::estimate_covariance_mut(&mut self.f), v),
                Slot::P => pt!({ $S }, { $S }, a, self.f.estimate_covariance_mut(), v),
                Slot::A if t => pt!({ $S }, { $S }, a, ExtendedKalmanFilterStateTransitionMut::state_transition_jacobian_mut(&mut self.f), v),
                Slot::A => pt!({ $S }, { $S }, a, self.f.state_transition_jacobian_mut(), v),
                Slot::Q => pt!({ $S }, { $S }, a, self.f.direct_process_noise_mut(), v),
                Slot::H(0) => pt!({ $O1 }, { $S }, a, self.o1.observation_jacobian_matrix_mut(), v),
                Slot::H(1) => pt!({ $O2 }, { $S }, a, self.o2.observation_jacobian_matrix_mut(), v),
                Slot::H(_) => pt!({ $O3 }, { $S }, a, ExtendedKalmanFilterObservationTransformationMut::observation_jacobian_matrix_mut(&mut self.o3), v),
                Slot::R(0) => pt!({ $O1 }, { $O1 }, a, self.o1.measurement_noise_covariance_mut(), v),
                Slot::R(1) => pt!({ $O2 }, { $O2 }, a, self.o2.measurement_noise_covariance_mut(), v),
                Slot::R(_) => pt!({ $O3 }, { $O3 }, a, KalmanFilterMeasurementNoiseCovarianceMut::measurement_noise_covariance_mut(&mut self.o3), v),
                Slot::Z(0) => pt!({ $O1 }, 1, a, self.o1.measurement_vector_mut(), v),
                Slot::Z(1) => pt!({ $O2 }, 1, a, self.o2.measurement_vector_mut(), v),
                Slot::Z(_) => pt!({ $O3 }, 1, a, KalmanFilterObservationVectorMut::measurement_vector_mut(&mut self.o3), v),
                _ => unreachable!("harness: control slot on an extended filter"),
            }
        }
        fn predict(&mut self) {
            unreachable!("harness: linear step on an extended filter")
        }
        fn predict_tuned(&mut self, _: Dyn) {
            unreachable!("harness: linear step on an extended filter")
        }
        fn control(&mut self, _: u8) {
            unreachable!("harness: linear step on an extended filter")
        }
        fn correct(&mut self, _: u8) {
            unreachable!("harness: linear step on an extended filter")
        }
        fn predict_nl(&mut self, f: Cb) {
            let a = self.api;
            if a & API_TRAIT != 0 {
                KalmanFilterNonlinearPredict::predict_nonlinear(&mut self.f, |x, o| call_cb::<{ $S }, { $S }, _, _>(a, x, o, f))
            } else {
                self.f.predict_nonlinear(|x, o| call_cb::<{ $S }, { $S }, _, _>(a, x, o, f))
            }
        }
        fn predict_tuned_nl(&mut self, l: Dyn, f: Cb) {
            let a = self.api;
            self.f.predict_tuned_nonlinear(l, |x, o| call_cb::<{ $S }, { $S }, _, _>(a, x, o, f))
        }
        fn correct_nl(&mut self, i: u8, f: Cb) {
            let a = self.api;
            match (a & API_TRAIT != 0, i) {
                (false, 0) => self.f.correct_nonlinear(&mut self.o1, |x, o| call_cb::<{ $S }, { $O1 }, _, _>(a, x, o, f)),
                (false, 1) => self.f.correct_nonlinear(&mut self.o2, |x, o| call_cb::<{ $S }, { $O2 }, _, _>(a, x, o, f)),
                (false, _) => self.f.correct_nonlinear(&mut self.o3, |x, o| call_cb::<{ $S }, { $O3 }, _, _>(a, x, o, f)),
                (true, 0) => KalmanFilterNonlinearUpdate::correct_nonlinear(&mut self.f, &mut self.o1, |x, o| call_cb::<{ $S }, { $O1 }, _, _>(a, x, o, f)),
                (true, 1) => KalmanFilterNonlinearUpdate::correct_nonlinear(&mut self.f, &mut self.o2, |x, o| call_cb::<{ $S }, { $O2 }, _, _>(a, x, o, f)),
                (true, _) => KalmanFilterNonlinearUpdate::correct_nonlinear(&mut self.f, &mut self.o3, |x, o| call_cb::<{ $S }, { $O3 }, _, _>(a, x, o, f)),
            }
        }
        fn arena(&mut self) -> Option<&mut Arena> {
            self.arena.as_mut()
        }
    };
}

// storage-family rigs ----------------------------------------------------------------------

type FamFilter<F, const S: usize> = reg::RegularKalman<
    S,
    Dyn,
    StateTransitionMatrixMutBuffer<S, Dyn, <F as Fam>::M<S, S>>,
    StateVectorBuffer<S, Dyn, <F as Fam>::M<S, 1>>,
    EstimateCovarianceMatrixBuffer<S, Dyn, <F as Fam>::M<S, S>>,
    DirectProcessNoiseCovarianceMatrixMutBuffer<S, Dyn, <F as Fam>::M<S, S>>,
    PredictedStateEstimateVectorBuffer<S, Dyn, <F as Fam>::M<S, 1>>,
    TemporaryStateMatrixBuffer<S, Dyn, <F as Fam>::M<S, S>>,
>;
type FamExtFilter<F, const S: usize> = ext::ExtendedKalman<
    S,
    Dyn,
    StateTransitionMatrixMutBuffer<S, Dyn, <F as Fam>::M<S, S>>,
    StateVectorBuffer<S, Dyn, <F as Fam>::M<S, 1>>,
    EstimateCovarianceMatrixBuffer<S, Dyn, <F as Fam>::M<S, S>>,
    DirectProcessNoiseCovarianceMatrixMutBuffer<S, Dyn, <F as Fam>::M<S, S>>,
    PredictedStateEstimateVectorBuffer<S, Dyn, <F as Fam>::M<S, 1>>,
    TemporaryStateMatrixBuffer<S, Dyn, <F as Fam>::M<S, S>>,
>;
type FamObs<F, const S: usize, const O: usize> = reg::RegularObservation<
    S,
    O,
    Dyn,
    ObservationMatrixMutBuffer<O, S, Dyn, <F as Fam>::M<O, S>>,
    MeasurementVectorBuffer<O, Dyn, <F as Fam>::M<O, 1>>,
    MeasurementNoiseCovarianceMatrixBuffer<O, Dyn, <F as Fam>::M<O, O>>,
    InnovationVectorBuffer<O, Dyn, <F as Fam>::M<O, 1>>,
    InnovationCovarianceMatrixBuffer<O, Dyn, <F as Fam>::M<O, O>>,
    KalmanGainMatrixBuffer<S, O, Dyn, <F as Fam>::M<S, O>>,
    TemporaryResidualCovarianceInvertedMatrixBuffer<O, Dyn, <F as Fam>::M<O, O>>,
    TemporaryHPMatrixBuffer<O, S, Dyn, <F as Fam>::M<O, S>>,
    TemporaryPHTMatrixBuffer<S, O, Dyn, <F as Fam>::M<S, O>>,
    TemporaryKHPMatrixBuffer<S, Dyn, <F as Fam>::M<S, S>>,
>;
type FamExtObs<F, const S: usize, const O: usize> = ext::ExtendedObservation<
    S,
    O,
    Dyn,
    ObservationMatrixMutBuffer<O, S, Dyn, <F as Fam>::M<O, S>>,
    MeasurementVectorBuffer<O, Dyn, <F as Fam>::M<O, 1>>,
    MeasurementNoiseCovarianceMatrixBuffer<O, Dyn, <F as Fam>::M<O, O>>,
    InnovationVectorBuffer<O, Dyn, <F as Fam>::M<O, 1>>,
    InnovationCovarianceMatrixBuffer<O, Dyn, <F as Fam>::M<O, O>>,
    KalmanGainMatrixBuffer<S, O, Dyn, <F as Fam>::M<S, O>>,
    TemporaryResidualCovarianceInvertedMatrixBuffer<O, Dyn, <F as Fam>::M<O, O>>,
    TemporaryHPMatrixBuffer<O, S, Dyn, <F as Fam>::M<O, S>>,
    TemporaryPHTMatrixBuffer<S, O, Dyn, <F as Fam>::M<S, O>>,
    TemporaryKHPMatrixBuffer<S, Dyn, <F as Fam>::M<S, S>>,
>;
type FamCtl<F, const S: usize, const C: usize> = reg::Control<
    S,
    C,
    Dyn,
    ControlMatrixMutBuffer<S, C, Dyn, <F as Fam>::M<S, C>>,
    ControlVectorBuffer<C, Dyn, <F as Fam>::M<C, 1>>,
    ControlProcessNoiseCovarianceMatrixMutBuffer<C, Dyn, <F as Fam>::M<C, C>>,
    TemporaryBQMatrixBuffer<S, C, Dyn, <F as Fam>::M<S, C>>,
>;

fn fam_filter<F: Fam, const S: usize>(a: &mut Arena) -> FamFilter<F, S> {
    RegularKalmanBuilder::new::<S, Dyn>(
        StateTransitionMatrixMutBuffer::new(F::mk::<S, S>(a, Name::A)),
        StateVectorBuffer::new(F::mk::<S, 1>(a, Name::X)),
        EstimateCovarianceMatrixBuffer::new(F::mk::<S, S>(a, Name::P)),
        DirectProcessNoiseCovarianceMatrixMutBuffer::new(F::mk::<S, S>(a, Name::Q)),
        PredictedStateEstimateVectorBuffer::new(F::mk::<S, 1>(a, Name::PredX)),
        TemporaryStateMatrixBuffer::new(F::mk::<S, S>(a, Name::TempP)),
    )
}
fn fam_ext_filter<F: Fam, const S: usize>(a: &mut Arena) -> FamExtFilter<F, S> {
    ExtendedKalmanBuilder::new::<S, Dyn>(
        StateTransitionMatrixMutBuffer::new(F::mk::<S, S>(a, Name::A)),
        StateVectorBuffer::new(F::mk::<S, 1>(a, Name::X)),
        EstimateCovarianceMatrixBuffer::new(F::mk::<S, S>(a, Name::P)),
        DirectProcessNoiseCovarianceMatrixMutBuffer::new(F::mk::<S, S>(a, Name::Q)),
        PredictedStateEstimateVectorBuffer::new(F::mk::<S, 1>(a, Name::PredX)),
        TemporaryStateMatrixBuffer::new(F::mk::<S, S>(a, Name::TempP)),
    )
}
macro_rules! obs_args {
    ($F:ident, $a:ident, $i:ident) => {
        (
            ObservationMatrixMutBuffer::new($F::mk::<O, S>($a, Name::H($i))),
            MeasurementVectorBuffer::new($F::mk::<O, 1>($a, Name::Z($i))),
            MeasurementNoiseCovarianceMatrixBuffer::new($F::mk::<O, O>($a, Name::R($i))),
            InnovationVectorBuffer::new($F::mk::<O, 1>($a, Name::Y($i))),
            InnovationCovarianceMatrixBuffer::new($F::mk::<O, O>($a, Name::S($i))),
            KalmanGainMatrixBuffer::new($F::mk::<S, O>($a, Name::K($i))),
            TemporaryResidualCovarianceInvertedMatrixBuffer::new($F::mk::<O, O>($a, Name::SInv($i))),
            TemporaryHPMatrixBuffer::new($F::mk::<O, S>($a, Name::HP($i))),
            TemporaryPHTMatrixBuffer::new($F::mk::<S, O>($a, Name::PHt($i))),
            TemporaryKHPMatrixBuffer::new($F::mk::<S, S>($a, Name::KHP($i))),
        )
    };
}
fn fam_obs<F: Fam, const S: usize, const O: usize>(a: &mut Arena, i: u8) -> FamObs<F, S, O> {
    let (h, z, r, y, s, k, si, hp, pht, khp) = obs_args!(F, a, i);
    RegularObservationBuilder::new::<S, O, Dyn>(h, z, r, y, s, k, si, hp, pht, khp)
}
fn fam_ext_obs<F: Fam, const S: usize, const O: usize>(a: &mut Arena, i: u8) -> FamExtObs<F, S, O> {
    let (h, z, r, y, s, k, si, hp, pht, khp) = obs_args!(F, a, i);
    ExtendedObservationBuilder::new::<S, O, Dyn>(h, z, r, y, s, k, si, hp, pht, khp)
}
fn fam_ctl<F: Fam, const S: usize, const C: usize>(a: &mut Arena, j: u8) -> FamCtl<F, S, C> {
    ControlBuilder::new::<S, C, Dyn>(
        ControlMatrixMutBuffer::new(F::mk::<S, C>(a, Name::B(j))),
        ControlVectorBuffer::new(F::mk::<C, 1>(a, Name::U(j))),
        ControlProcessNoiseCovarianceMatrixMutBuffer::new(F::mk::<C, C>(a, Name::Qc(j))),
        TemporaryBQMatrixBuffer::new(F::mk::<S, C>(a, Name::BQ(j))),
    )
}

macro_rules! impl_fam {
    ($F:ty) => {
        impl<
                const S: usize,
                const O1: usize,
                const O2: usize,
                const O3: usize,
                const C1: usize,
                const C2: usize,
            > Rig
            for RegRig<
                FamFilter<$F, S>,
                FamObs<$F, S, O1>,
                FamObs<$F, S, O2>,
                FamObs<$F, S, O3>,
                FamCtl<$F, S, C1>,
                FamCtl<$F, S, C2>,
            >
        {
            reg_methods!(S, O1, O2, O3, C1, C2);
        }
        impl<const S: usize, const O1: usize, const O2: usize, const O3: usize> Rig
            for ExtRig<
                FamExtFilter<$F, S>,
                FamExtObs<$F, S, O1>,
                FamExtObs<$F, S, O2>,
                FamExtObs<$F, S, O3>,
            >
        {
            ext_methods!(S, O1, O2, O3);
        }
    };
}
impl_fam!(ArenaFam);
impl_fam!(BoxedFam);
impl_fam!(ArrayFam);
impl_fam!(WrapFam);

fn largest(d: [usize; 6]) -> usize {
    d.into_iter().max().unwrap()
}

macro_rules! mk_fam {
    ($name:ident, $F:ty) => {
        fn $name<
            const S: usize,
            const O1: usize,
            const O2: usize,
            const O3: usize,
            const C1: usize,
            const C2: usize,
        >(
            ext: bool,
            api: u32,
            layout: u32,
        ) -> Box<dyn Rig> {
            let mut a = Arena::new(if <$F>::IS_ARENA { largest([S, O1, O2, O3, C1, C2]) } else { 0 }, layout);
            let m = &mut a;
            if ext {
                let f = fam_ext_filter::<$F, S>(m);
                let (o1, o2, o3) = (
                    fam_ext_obs::<$F, S, O1>(m, 0),
                    fam_ext_obs::<$F, S, O2>(m, 1),
                    fam_ext_obs::<$F, S, O3>(m, 2),
                );
                Box::new(ExtRig { api, f, o1, o2, o3, arena: <$F>::IS_ARENA.then_some(a) })
            } else {
                let f = fam_filter::<$F, S>(m);
                let (o1, o2, o3) = (
                    fam_obs::<$F, S, O1>(m, 0),
                    fam_obs::<$F, S, O2>(m, 1),
                    fam_obs::<$F, S, O3>(m, 2),
                );
                let (c1, c2) = (fam_ctl::<$F, S, C1>(m, 0), fam_ctl::<$F, S, C2>(m, 1));
                Box::new(RegRig { api, f, o1, o2, o3, c1, c2, arena: <$F>::IS_ARENA.then_some(a) })
            }
        }
    };
}
mk_fam!(mk_arena, ArenaFam);
mk_fam!(mk_boxed, BoxedFam);
mk_fam!(mk_array, ArrayFam);
mk_fam!(mk_wrap, WrapFam);

// the library's own builders ---------------------------------------------------------------

impl<
        const S: usize,
        const O1: usize,
        const O2: usize,
        const O3: usize,
        const C1: usize,
        const C2: usize,
    > Rig
    for RegRig<
        reg::builder::KalmanFilterType<S, Dyn>,
        reg::builder::KalmanFilterObservationType<S, O1, Dyn>,
        reg::builder::KalmanFilterObservationType<S, O2, Dyn>,
        reg::builder::KalmanFilterObservationType<S, O3, Dyn>,
        reg::builder::KalmanFilterControlType<S, C1, Dyn>,
        reg::builder::KalmanFilterControlType<S, C2, Dyn>,
    >
{
    reg_methods!(S, O1, O2, O3, C1, C2);
}
impl<const S: usize, const O1: usize, const O2: usize, const O3: usize> Rig
    for ExtRig<
        ext::builder::KalmanFilterType<S, Dyn>,
        ext::builder::KalmanFilterObservationType<S, O1, Dyn>,
        ext::builder::KalmanFilterObservationType<S, O2, Dyn>,
        ext::builder::KalmanFilterObservationType<S, O3, Dyn>,
    >
{
    ext_methods!(S, O1, O2, O3);
}

fn mk_builder<
    const S: usize,
    const O1: usize,
    const O2: usize,
    const O3: usize,
    const C1: usize,
    const C2: usize,
>(
    ext: bool,
    api: u32,
    _layout: u32,
) -> Box<dyn Rig> {
    if ext {
        let b = ext::builder::KalmanFilterBuilder::<S, Dyn>::default();
        let f = b.build();
        let o = b.observations();
        Box::new(ExtRig { api, f, o1: o.build::<O1>(), o2: o.build::<O2>(), o3: o.build::<O3>(), arena: None })
    } else {
        let b = reg::builder::KalmanFilterBuilder::<S, Dyn>::default();
        let f = b.build();
        let o = b.observations();
        let c = b.controls();
        Box::new(RegRig {
            api,
            f,
            o1: o.build::<O1>(),
            o2: o.build::<O2>(),
            o3: o.build::<O3>(),
            c1: c.build::<C1>(),
            c2: c.build::<C2>(),
            arena: None,
        })
    }
}

// filters built from borrowed slices, anew for every step -----------------------------------

struct SliceRig<
    const S: usize,
    const O1: usize,
    const O2: usize,
    const O3: usize,
    const C1: usize,
    const C2: usize,
> {
    api: u32,
    a: Arena,
}

fn msl<'a>(a: &Arena, n: Name) -> &'a mut [Dyn] {
    let r = a.find(n).expect("harness: region");
    // distinct regions never overlap within one component (layout without aliasing)
    unsafe { std::slice::from_raw_parts_mut(a.slice().as_ptr().add(r.start) as *mut Dyn, r.total) }
}
fn rsl<'a>(a: &Arena, n: Name) -> &'a [Dyn] {
    let r = a.find(n).expect("harness: region");
    unsafe { std::slice::from_raw_parts(a.slice().as_ptr().add(r.start), r.total) }
}

fn wrap<'a, const R: usize, const C: usize>(
    v: &'a [Dyn],
) -> MatrixDataRowMajor<R, C, MatrixDataRef<'a, R, C, Dyn>, Dyn> {
    MatrixData::new_from(MatrixData::new_ref::<R, C, Dyn>(v))
}

macro_rules! with_filter {
    ($B:ident, $S:expr, $a:expr, $immut:expr, |$f:ident| $body:expr) => {{
        let a = $a;
        if $immut {
            #[allow(unused_mut)]
            let mut $f = $B::new::<{ $S }, Dyn>(
                StateTransitionMatrixBuffer::<{ $S }, Dyn, _>::from(rsl(a, Name::A)),
                StateVectorBuffer::<{ $S }, Dyn, _>::from(msl(a, Name::X)),
                EstimateCovarianceMatrixBuffer::<{ $S }, Dyn, _>::from(msl(a, Name::P)),
                DirectProcessNoiseCovarianceMatrixBuffer::<{ $S }, Dyn, _>::new(wrap::<{ $S }, { $S }>(rsl(a, Name::Q))),
                PredictedStateEstimateVectorBuffer::<{ $S }, Dyn, _>::from(msl(a, Name::PredX)),
                TemporaryStateMatrixBuffer::<{ $S }, Dyn, _>::from(msl(a, Name::TempP)),
            );
            $body
        } else {
            #[allow(unused_mut)]
            let mut $f = $B::new::<{ $S }, Dyn>(
                StateTransitionMatrixMutBuffer::<{ $S }, Dyn, _>::from(msl(a, Name::A)),
                StateVectorBuffer::<{ $S }, Dyn, _>::from(msl(a, Name::X)),
                EstimateCovarianceMatrixBuffer::<{ $S }, Dyn, _>::from(msl(a, Name::P)),
                DirectProcessNoiseCovarianceMatrixMutBuffer::<{ $S }, Dyn, _>::from(msl(a, Name::Q)),
                PredictedStateEstimateVectorBuffer::<{ $S }, Dyn, _>::from(msl(a, Name::PredX)),
                TemporaryStateMatrixBuffer::<{ $S }, Dyn, _>::from(msl(a, Name::TempP)),
            );
            $body
        }
    }};
}
macro_rules! with_obs {
    ($B:ident, $S:expr, $O:expr, $i:expr, $a:expr, $immut:expr, |$o:ident| $body:expr) => {{
        let a = $a;
        let i: u8 = $i;
        if $immut {
            let mut $o = $B::new::<{ $S }, { $O }, Dyn>(
                ObservationMatrixBuffer::<{ $O }, { $S }, Dyn, _>::new(wrap::<{ $O }, { $S }>(rsl(a, Name::H(i)))),
                MeasurementVectorBuffer::<{ $O }, Dyn, _>::from(msl(a, Name::Z(i))),
                MeasurementNoiseCovarianceMatrixBuffer::<{ $O }, Dyn, _>::from(msl(a, Name::R(i))),
                InnovationVectorBuffer::<{ $O }, Dyn, _>::from(msl(a, Name::Y(i))),
                InnovationCovarianceMatrixBuffer::<{ $O }, Dyn, _>::from(msl(a, Name::S(i))),
                KalmanGainMatrixBuffer::<{ $S }, { $O }, Dyn, _>::from(msl(a, Name::K(i))),
                TemporaryResidualCovarianceInvertedMatrixBuffer::<{ $O }, Dyn, _>::from(msl(a, Name::SInv(i))),
                TemporaryHPMatrixBuffer::<{ $O }, { $S }, Dyn, _>::from(msl(a, Name::HP(i))),
                TemporaryPHTMatrixBuffer::<{ $S }, { $O }, Dyn, _>::from(msl(a, Name::PHt(i))),
                TemporaryKHPMatrixBuffer::<{ $S }, Dyn, _>::from(msl(a, Name::KHP(i))),
            );
            $body
        } else {
            let mut $o = $B::new::<{ $S }, { $O }, Dyn>(
                ObservationMatrixMutBuffer::<{ $O }, { $S }, Dyn, _>::from(msl(a, Name::H(i))),
                MeasurementVectorBuffer::<{ $O }, Dyn, _>::from(msl(a, Name::Z(i))),
                MeasurementNoiseCovarianceMatrixBuffer::<{ $O }, Dyn, _>::from(msl(a, Name::R(i))),
                InnovationVectorBuffer::<{ $O }, Dyn, _>::from(msl(a, Name::Y(i))),
                InnovationCovarianceMatrixBuffer::<{ $O }, Dyn, _>::from(msl(a, Name::S(i))),
                KalmanGainMatrixBuffer::<{ $S }, { $O }, Dyn, _>::from(msl(a, Name::K(i))),
                TemporaryResidualCovarianceInvertedMatrixBuffer::<{ $O }, Dyn, _>::from(msl(a, Name::SInv(i))),
                TemporaryHPMatrixBuffer::<{ $O }, { $S }, Dyn, _>::from(msl(a, Name::HP(i))),
                TemporaryPHTMatrixBuffer::<{ $S }, { $O }, Dyn, _>::from(msl(a, Name::PHt(i))),
                TemporaryKHPMatrixBuffer::<{ $S }, Dyn, _>::from(msl(a, Name::KHP(i))),
            );
            $body
        }
    }};
}
macro_rules! with_ctl {
    ($S:expr, $C:expr, $j:expr, $a:expr, $immut:expr, |$o:ident| $body:expr) => {{
        let a = $a;
        let j: u8 = $j;
        if $immut {
            let mut $o = ControlBuilder::new::<{ $S }, { $C }, Dyn>(
                ControlMatrixBuffer::<{ $S }, { $C }, Dyn, _>::from(rsl(a, Name::B(j))),
                ControlVectorBuffer::<{ $C }, Dyn, _>::from(msl(a, Name::U(j))),
                ControlProcessNoiseCovarianceMatrixBuffer::<{ $C }, Dyn, _>::from(rsl(a, Name::Qc(j))),
                TemporaryBQMatrixBuffer::<{ $S }, { $C }, Dyn, _>::from(msl(a, Name::BQ(j))),
            );
            $body
        } else {
            let mut $o = ControlBuilder::new::<{ $S }, { $C }, Dyn>(
                ControlMatrixMutBuffer::<{ $S }, { $C }, Dyn, _>::from(msl(a, Name::B(j))),
                ControlVectorBuffer::<{ $C }, Dyn, _>::from(msl(a, Name::U(j))),
                ControlProcessNoiseCovarianceMatrixMutBuffer::<{ $C }, Dyn, _>::from(msl(a, Name::Qc(j))),
                TemporaryBQMatrixBuffer::<{ $S }, { $C }, Dyn, _>::from(msl(a, Name::BQ(j))),
            );
            $body
        }
    }};
}

fn slot_name(s: Slot) -> Name {
    match s {
        Slot::X => Name::X,
        Slot::P => Name::P,
        Slot::A => Name::A,
        Slot::Q => Name::Q,
        Slot::H(i) => Name::H(i),
        Slot::R(i) => Name::R(i),
        Slot::Z(i) => Name::Z(i),
        Slot::B(j) => Name::B(j),
        Slot::Qc(j) => Name::Qc(j),
        Slot::U(j) => Name::U(j),
    }
}

impl<
        const S: usize,
        const O1: usize,
        const O2: usize,
        const O3: usize,
        const C1: usize,
        const C2: usize,
    > SliceRig<S, O1, O2, O3, C1, C2>
{
    fn obs<const O: usize>(&mut self, i: u8) {
        let (api, a) = (self.api, &self.a);
        let im = api & API_IMMUT != 0;
        with_obs!(RegularObservationBuilder, S, O, i, a, im, |o| {
            if api & API_DIRECT != 0 {
                let mut x = StateVectorBuffer::<S, Dyn, _>::from(msl(a, Name::X));
                let mut p = EstimateCovarianceMatrixBuffer::<S, Dyn, _>::from(msl(a, Name::P));
                o.correct(&mut x, &mut p)
            } else {
                with_filter!(RegularKalmanBuilder, S, a, im, |f| f.correct(&mut o))
            }
        })
    }
    fn obs_nl<const O: usize>(&mut self, i: u8, cb: Cb) {
        let (api, a) = (self.api, &self.a);
        let im = api & API_IMMUT != 0;
        with_obs!(ExtendedObservationBuilder, S, O, i, a, im, |o| {
            if api & API_DIRECT != 0 {
                let mut x = StateVectorBuffer::<S, Dyn, _>::from(msl(a, Name::X));
                let mut p = EstimateCovarianceMatrixBuffer::<S, Dyn, _>::from(msl(a, Name::P));
                o.correct_nonlinear(&mut x, &mut p, |x, y| call_cb::<S, O, _, _>(api, x, y, cb))
            } else {
                with_filter!(ExtendedKalmanBuilder, S, a, im, |f| f
                    .correct_nonlinear(&mut o, |x, y| call_cb::<S, O, _, _>(api, x, y, cb)))
            }
        })
    }
    fn ctl<const C: usize>(&mut self, j: u8) {
        let (api, a) = (self.api, &self.a);
        let im = api & API_IMMUT != 0;
        with_ctl!(S, C, j, a, im, |c| {
            if api & API_DIRECT != 0 {
                let mut x = StateVectorBuffer::<S, Dyn, _>::from(msl(a, Name::X));
                let mut p = EstimateCovarianceMatrixBuffer::<S, Dyn, _>::from(msl(a, Name::P));
                c.apply_control(&mut x, &mut p)
            } else {
                with_filter!(RegularKalmanBuilder, S, a, im, |f| f.control(&mut c))
            }
        })
    }
}

impl<
        const S: usize,
        const O1: usize,
        const O2: usize,
        const O3: usize,
        const C1: usize,
        const C2: usize,
    > Rig for SliceRig<S, O1, O2, O3, C1, C2>
{
    fn dims(&self) -> Dims {
        Dims { s: S, o: [O1, O2, O3], c: [C1, C2] }
    }
    fn get(&mut self, s: Slot) -> Vec<u64> {
        let a = self.api;
        let im = a & API_IMMUT != 0;
        let n = slot_name(s);
        if self.dims().len(s) == 0 {
            return vec![];
        }
        match s {
            Slot::X => tk!({ S }, 1, a, &StateVectorBuffer::<S, Dyn, _>::from(msl(&self.a, n))),
            Slot::P => tk!({ S }, { S }, a, &EstimateCovarianceMatrixBuffer::<S, Dyn, _>::from(msl(&self.a, n))),
            Slot::A if im => tk!({ S }, { S }, a, &StateTransitionMatrixBuffer::<S, Dyn, _>::from(rsl(&self.a, n))),
            Slot::A => tk!({ S }, { S }, a, &StateTransitionMatrixMutBuffer::<S, Dyn, _>::from(msl(&self.a, n))),
            Slot::Q if im => tk!({ S }, { S }, a, &DirectProcessNoiseCovarianceMatrixBuffer::<S, Dyn, _>::new(wrap::<S, S>(rsl(&self.a, n)))),
            Slot::Q => tk!({ S }, { S }, a, &DirectProcessNoiseCovarianceMatrixMutBuffer::<S, Dyn, _>::from(msl(&self.a, n))),
            Slot::H(0) if im => tk!({ O1 }, { S }, a, &ObservationMatrixBuffer::<O1, S, Dyn, _>::new(wrap::<O1, S>(rsl(&self.a, n)))),
            Slot::H(0) => tk!({ O1 }, { S }, a, &ObservationMatrixMutBuffer::<O1, S, Dyn, _>::from(msl(&self.a, n))),
            Slot::R(0) => tk!({ O1 }, { O1 }, a, &MeasurementNoiseCovarianceMatrixBuffer::<O1, Dyn, _>::from(msl(&self.a, n))),
            Slot::Z(0) => tk!({ O1 }, 1, a, &MeasurementVectorBuffer::<O1, Dyn, _>::from(msl(&self.a, n))),
            Slot::H(1) if im => tk!({ O2 }, { S }, a, &ObservationMatrixBuffer::<O2, S, Dyn, _>::new(wrap::<O2, S>(rsl(&self.a, n)))),
            Slot::H(1) => tk!({ O2 }, { S }, a, &ObservationMatrixMutBuffer::<O2, S, Dyn, _>::from(msl(&self.a, n))),
            Slot::R(1) => tk!({ O2 }, { O2 }, a, &MeasurementNoiseCovarianceMatrixBuffer::<O2, Dyn, _>::from(msl(&self.a, n))),
            Slot::Z(1) => tk!({ O2 }, 1, a, &MeasurementVectorBuffer::<O2, Dyn, _>::from(msl(&self.a, n))),
            Slot::H(_) if im => tk!({ O3 }, { S }, a, &ObservationMatrixBuffer::<O3, S, Dyn, _>::new(wrap::<O3, S>(rsl(&self.a, n)))),
            Slot::H(_) => tk!({ O3 }, { S }, a, &ObservationMatrixMutBuffer::<O3, S, Dyn, _>::from(msl(&self.a, n))),
            Slot::R(_) => tk!({ O3 }, { O3 }, a, &MeasurementNoiseCovarianceMatrixBuffer::<O3, Dyn, _>::from(msl(&self.a, n))),
            Slot::Z(_) => tk!({ O3 }, 1, a, &MeasurementVectorBuffer::<O3, Dyn, _>::from(msl(&self.a, n))),
            Slot::B(0) if im => tk!({ S }, { C1 }, a, &ControlMatrixBuffer::<S, C1, Dyn, _>::from(rsl(&self.a, n))),
            Slot::B(0) => tk!({ S }, { C1 }, a, &ControlMatrixMutBuffer::<S, C1, Dyn, _>::from(msl(&self.a, n))),
            Slot::Qc(0) if im => tk!({ C1 }, { C1 }, a, &ControlProcessNoiseCovarianceMatrixBuffer::<C1, Dyn, _>::from(rsl(&self.a, n))),
            Slot::Qc(0) => tk!({ C1 }, { C1 }, a, &ControlProcessNoiseCovarianceMatrixMutBuffer::<C1, Dyn, _>::from(msl(&self.a, n))),
            Slot::U(0) => tk!({ C1 }, 1, a, &ControlVectorBuffer::<C1, Dyn, _>::from(msl(&self.a, n))),
            Slot::B(_) if im => tk!({ S }, { C2 }, a, &ControlMatrixBuffer::<S, C2, Dyn, _>::from(rsl(&self.a, n))),
            Slot::B(_) => tk!({ S }, { C2 }, a, &ControlMatrixMutBuffer::<S, C2, Dyn, _>::from(msl(&self.a, n))),
            Slot::Qc(_) if im => tk!({ C2 }, { C2 }, a, &ControlProcessNoiseCovarianceMatrixBuffer::<C2, Dyn, _>::from(rsl(&self.a, n))),
            Slot::Qc(_) => tk!({ C2 }, { C2 }, a, &ControlProcessNoiseCovarianceMatrixMutBuffer::<C2, Dyn, _>::from(msl(&self.a, n))),
            Slot::U(_) => tk!({ C2 }, 1, a, &ControlVectorBuffer::<C2, Dyn, _>::from(msl(&self.a, n))),
        }
    }
    fn set(&mut self, s: Slot, v: &[Dyn]) {
        let n = self.dims().len(s);
        assert_eq!(n, v.len(), "harness: wrong value count");
        let a = self.api;
        let nm = slot_name(s);
        if n == 0 || a & API_IMMUT != 0 {
            // the user writes the memory itself
            return msl(&self.a, nm)[..n].copy_from_slice(v);
        }
        match s {
            Slot::X => pt!({ S }, 1, a, &mut StateVectorBuffer::<S, Dyn, _>::from(msl(&self.a, nm)), v),
            Slot::P => pt!({ S }, { S }, a, &mut EstimateCovarianceMatrixBuffer::<S, Dyn, _>::from(msl(&self.a, nm)), v),
            Slot::A => pt!({ S }, { S }, a, &mut StateTransitionMatrixMutBuffer::<S, Dyn, _>::from(msl(&self.a, nm)), v),
            Slot::Q => pt!({ S }, { S }, a, &mut DirectProcessNoiseCovarianceMatrixMutBuffer::<S, Dyn, _>::from(msl(&self.a, nm)), v),
            Slot::H(0) => pt!({ O1 }, { S }, a, &mut ObservationMatrixMutBuffer::<O1, S, Dyn, _>::from(msl(&self.a, nm)), v),
            Slot::R(0) => pt!({ O1 }, { O1 }, a, &mut MeasurementNoiseCovarianceMatrixBuffer::<O1, Dyn, _>::from(msl(&self.a, nm)), v),
            Slot::Z(0) => pt!({ O1 }, 1, a, &mut MeasurementVectorBuffer::<O1, Dyn, _>::from(msl(&self.a, nm)), v),
            Slot::H(1) => pt!({ O2 }, { S }, a, &mut ObservationMatrixMutBuffer::<O2, S, Dyn, _>::from(msl(&self.a, nm)), v),
            Slot::R(1) => pt!({ O2 }, { O2 }, a, &mut MeasurementNoiseCovarianceMatrixBuffer::<O2, Dyn, _>::from(msl(&self.a, nm)), v),
            Slot::Z(1) => pt!({ O2 }, 1, a, &mut MeasurementVectorBuffer::<O2, Dyn, _>::from(msl(&self.a, nm)), v),
            Slot::H(_) => pt!({ O3 }, { S }, a, &mut ObservationMatrixMutBuffer::<O3, S, Dyn, _>::from(msl(&self.a, nm)), v),
            Slot::R(_) => pt!({ O3 }, { O3 }, a, &mut MeasurementNoiseCovarianceMatrixBuffer::<O3, Dyn, _>::from(msl(&self.a, nm)), v),
            Slot::Z(_) => pt!({ O3 }, 1, a, &mut MeasurementVectorBuffer::<O3, Dyn, _>::from(msl(&self.a, nm)), v),
            Slot::B(0) => pt!({ S }, { C1 }, a, &mut ControlMatrixMutBuffer::<S, C1, Dyn, _>::from(msl(&self.a, nm)), v),
            Slot::Qc(0) => pt!({ C1 }, { C1 }, a, &mut ControlProcessNoiseCovarianceMatrixMutBuffer::<C1, Dyn, _>::from(msl(&self.a, nm)), v),
            Slot::U(0) => pt!({ C1 }, 1, a, &mut ControlVectorBuffer::<C1, Dyn, _>::from(msl(&self.a, nm)), v),
            Slot::B(_) => pt!({ S }, { C2 }, a, &mut ControlMatrixMutBuffer::<S, C2, Dyn, _>::from(msl(&self.a, nm)), v),
            Slot::Qc(_) => pt!({ C2 }, { C2 }, a, &mut ControlProcessNoiseCovarianceMatrixMutBuffer::<C2, Dyn, _>::from(msl(&self.a, nm)), v),
            Slot::U(_) => pt!({ C2 }, 1, a, &mut ControlVectorBuffer::<C2, Dyn, _>::from(msl(&self.a, nm)), v),
        }
    }
    fn predict(&mut self) {
        let (api, a) = (self.api, &self.a);
        with_filter!(RegularKalmanBuilder, S, a, api & API_IMMUT != 0, |f| {
            if api & API_TRAIT != 0 {
                KalmanFilterPredict::predict(&mut f)
            } else {
                f.predict()
            }
        })
    }
    fn predict_tuned(&mut self, l: Dyn) {
        let (api, a) = (self.api, &self.a);
        with_filter!(RegularKalmanBuilder, S, a, api & API_IMMUT != 0, |f| f.predict_tuned(l))
    }
    fn control(&mut self, j: u8) {
        if j == 0 {
            self.ctl::<C1>(0)
        } else {
            self.ctl::<C2>(1)
        }
    }
    fn correct(&mut self, i: u8) {
        match i {
            0 => self.obs::<O1>(0),
            1 => self.obs::<O2>(1),
            _ => self.obs::<O3>(2),
        }
    }
    fn predict_nl(&mut self, cb: Cb) {
        let (api, a) = (self.api, &self.a);
        with_filter!(ExtendedKalmanBuilder, S, a, api & API_IMMUT != 0, |f| {
            if api & API_TRAIT != 0 {
                KalmanFilterNonlinearPredict::predict_nonlinear(&mut f, |x, o| {
                    call_cb::<S, S, _, _>(api, x, o, cb)
                })
            } else {
                f.predict_nonlinear(|x, o| call_cb::<S, S, _, _>(api, x, o, cb))
            }
        })
    }
    fn predict_tuned_nl(&mut self, l: Dyn, cb: Cb) {
        let (api, a) = (self.api, &self.a);
        with_filter!(ExtendedKalmanBuilder, S, a, api & API_IMMUT != 0, |f| f
            .predict_tuned_nonlinear(l, |x, o| call_cb::<S, S, _, _>(api, x, o, cb)))
    }
    fn correct_nl(&mut self, i: u8, cb: Cb) {
        match i {
            0 => self.obs_nl::<O1>(0, cb),
            1 => self.obs_nl::<O2>(1, cb),
            _ => self.obs_nl::<O3>(2, cb),
        }
    }
    fn arena(&mut self) -> Option<&mut Arena> {
        Some(&mut self.a)
    }
}

fn mk_slice<
    const S: usize,
    const O1: usize,
    const O2: usize,
    const O3: usize,
    const C1: usize,
    const C2: usize,
>(
    _ext: bool,
    api: u32,
    layout: u32,
) -> Box<dyn Rig> {
    // within-component aliasing is not possible with two live &mut slices
    let mut a = Arena::new(largest([S, O1, O2, O3, C1, C2]), layout & !(15 << L_ALIAS_SHIFT));
    {
        let m = &mut a;
        ArenaFam::mk::<S, S>(m, Name::A);
        ArenaFam::mk::<S, 1>(m, Name::X);
        ArenaFam::mk::<S, S>(m, Name::P);
        ArenaFam::mk::<S, S>(m, Name::Q);
        ArenaFam::mk::<S, 1>(m, Name::PredX);
        ArenaFam::mk::<S, S>(m, Name::TempP);
        fn obs<const S: usize, const O: usize>(m: &mut Arena, i: u8) {
            ArenaFam::mk::<O, S>(m, Name::H(i));
            ArenaFam::mk::<O, 1>(m, Name::Z(i));
            ArenaFam::mk::<O, O>(m, Name::R(i));
            ArenaFam::mk::<O, 1>(m, Name::Y(i));
            ArenaFam::mk::<O, O>(m, Name::S(i));
            ArenaFam::mk::<S, O>(m, Name::K(i));
            ArenaFam::mk::<O, O>(m, Name::SInv(i));
            ArenaFam::mk::<O, S>(m, Name::HP(i));
            ArenaFam::mk::<S, O>(m, Name::PHt(i));
            ArenaFam::mk::<S, S>(m, Name::KHP(i));
        }
        obs::<S, O1>(m, 0);
        obs::<S, O2>(m, 1);
        obs::<S, O3>(m, 2);
        fn ctl<const S: usize, const C: usize>(m: &mut Arena, j: u8) {
            ArenaFam::mk::<S, C>(m, Name::B(j));
            ArenaFam::mk::<C, 1>(m, Name::U(j));
            ArenaFam::mk::<C, C>(m, Name::Qc(j));
            ArenaFam::mk::<S, C>(m, Name::BQ(j));
        }
        ctl::<S, C1>(m, 0);
        ctl::<S, C2>(m, 1);
    }
    Box::new(SliceRig::<S, O1, O2, O3, C1, C2> { api, a })
}

// the static-buffer macros -------------------------------------------------------------------

macro_rules! macro_rig {
    ($m:ident, $S:literal, $O1:literal, $O2:literal, $O3:literal, $C1:literal, $C2:literal) => {
        #[allow(non_snake_case)]
        mod $m {
            use super::*;
            type Arr<const R: usize, const C: usize, const T: usize> = MatrixDataArray<R, C, T, Dyn>;
            macro_rules! obs_ty {
                ($K:ident, $O:literal) => {
                    $K<
                        $S,
                        $O,
                        Dyn,
                        ObservationMatrixMutBuffer<$O, $S, Dyn, Arr<$O, $S, { $O * $S }>>,
                        MeasurementVectorBuffer<$O, Dyn, Arr<$O, 1, $O>>,
                        MeasurementNoiseCovarianceMatrixBuffer<$O, Dyn, Arr<$O, $O, { $O * $O }>>,
                        InnovationVectorBuffer<$O, Dyn, Arr<$O, 1, $O>>,
                        InnovationCovarianceMatrixBuffer<$O, Dyn, Arr<$O, $O, { $O * $O }>>,
                        KalmanGainMatrixBuffer<$S, $O, Dyn, Arr<$S, $O, { $S * $O }>>,
                        TemporaryResidualCovarianceInvertedMatrixBuffer<$O, Dyn, Arr<$O, $O, { $O * $O }>>,
                        TemporaryHPMatrixBuffer<$O, $S, Dyn, Arr<$O, $S, { $O * $S }>>,
                        TemporaryPHTMatrixBuffer<$S, $O, Dyn, Arr<$S, $O, { $S * $O }>>,
                        TemporaryKHPMatrixBuffer<$S, Dyn, Arr<$S, $S, { $S * $S }>>,
                    >
                };
            }
            macro_rules! ctl_ty {
                ($C:literal) => {
                    Control<
                        $S,
                        $C,
                        Dyn,
                        ControlMatrixMutBuffer<$S, $C, Dyn, Arr<$S, $C, { $S * $C }>>,
                        ControlVectorBuffer<$C, Dyn, Arr<$C, 1, $C>>,
                        ControlProcessNoiseCovarianceMatrixMutBuffer<$C, Dyn, Arr<$C, $C, { $C * $C }>>,
                        TemporaryBQMatrixBuffer<$S, $C, Dyn, Arr<$S, $C, { $S * $C }>>,
                    >
                };
            }
            macro_rules! filter_ty {
                ($K:ident) => {
                    $K<
                        $S,
                        Dyn,
                        StateTransitionMatrixMutBuffer<$S, Dyn, Arr<$S, $S, { $S * $S }>>,
                        StateVectorBuffer<$S, Dyn, Arr<$S, 1, $S>>,
                        EstimateCovarianceMatrixBuffer<$S, Dyn, Arr<$S, $S, { $S * $S }>>,
                        DirectProcessNoiseCovarianceMatrixMutBuffer<$S, Dyn, Arr<$S, $S, { $S * $S }>>,
                        PredictedStateEstimateVectorBuffer<$S, Dyn, Arr<$S, 1, $S>>,
                        TemporaryStateMatrixBuffer<$S, Dyn, Arr<$S, $S, { $S * $S }>>,
                    >
                };
            }
            use minikalman::extended::{ExtendedKalman, ExtendedObservation};
            use minikalman::regular::{Control, RegularKalman, RegularObservation};
            macro_rules! mk_obs {
                ($B:ident, $O:literal) => {{
                    impl_buffer_H!(mut H, $O, $S, Dyn, Dyn(0));
                    impl_buffer_z!(mut z, $O, Dyn, Dyn(0));
                    impl_buffer_R!(mut R, $O, Dyn, Dyn(0));
                    impl_buffer_y!(mut y, $O, Dyn, Dyn(0));
                    impl_buffer_S!(mut Si, $O, Dyn, Dyn(0));
                    impl_buffer_K!(mut K, $S, $O, Dyn, Dyn(0));
                    impl_buffer_temp_S_inv!(mut ts, $O, Dyn, Dyn(0));
                    impl_buffer_temp_HP!(mut hp, $O, $S, Dyn, Dyn(0));
                    impl_buffer_temp_PHt!(mut pht, $S, $O, Dyn, Dyn(0));
                    impl_buffer_temp_KHP!(mut khp, $S, Dyn, Dyn(0));
                    $B::new::<$S, $O, Dyn>(H, z, R, y, Si, K, ts, hp, pht, khp)
                }};
            }
            macro_rules! mk_ctl {
                ($C:literal) => {{
                    impl_buffer_B!(mut B, $S, $C, Dyn, Dyn(0));
                    impl_buffer_u!(mut u, $C, Dyn, Dyn(0));
                    impl_buffer_Q_control!(mut Q, $C, Dyn, Dyn(0));
                    impl_buffer_temp_BQ!(mut bq, $S, $C, Dyn, Dyn(0));
                    ControlBuilder::new::<$S, $C, Dyn>(B, u, Q, bq)
                }};
            }
            macro_rules! mk_filter {
                ($B:ident) => {{
                    impl_buffer_A!(mut A, $S, Dyn, Dyn(0));
                    impl_buffer_x!(mut x, $S, Dyn, Dyn(0));
                    impl_buffer_P!(mut P, $S, Dyn, Dyn(0));
                    impl_buffer_Q_direct!(mut Q, $S, Dyn, Dyn(0));
                    impl_buffer_temp_x!(mut tx, $S, Dyn, Dyn(0));
                    impl_buffer_temp_P!(mut tp, $S, Dyn, Dyn(0));
                    $B::new::<$S, Dyn>(A, x, P, Q, tx, tp)
                }};
            }
            impl Rig
                for RegRig<
                    filter_ty!(RegularKalman),
                    obs_ty!(RegularObservation, $O1),
                    obs_ty!(RegularObservation, $O2),
                    obs_ty!(RegularObservation, $O3),
                    ctl_ty!($C1),
                    ctl_ty!($C2),
                >
            {
                reg_methods!($S, $O1, $O2, $O3, $C1, $C2);
            }
            impl Rig
                for ExtRig<
                    filter_ty!(ExtendedKalman),
                    obs_ty!(ExtendedObservation, $O1),
                    obs_ty!(ExtendedObservation, $O2),
                    obs_ty!(ExtendedObservation, $O3),
                >
            {
                ext_methods!($S, $O1, $O2, $O3);
            }
            #[allow(unused_mut)]
            pub fn mk(ext: bool, api: u32) -> Box<dyn Rig> {
                if ext {
                    Box::new(ExtRig {
                        api,
                        f: mk_filter!(ExtendedKalmanBuilder),
                        o1: mk_obs!(ExtendedObservationBuilder, $O1),
                        o2: mk_obs!(ExtendedObservationBuilder, $O2),
                        o3: mk_obs!(ExtendedObservationBuilder, $O3),
                        arena: None,
                    })
                } else {
                    Box::new(RegRig {
                        api,
                        f: mk_filter!(RegularKalmanBuilder),
                        o1: mk_obs!(RegularObservationBuilder, $O1),
                        o2: mk_obs!(RegularObservationBuilder, $O2),
                        o3: mk_obs!(RegularObservationBuilder, $O3),
                        c1: mk_ctl!($C1),
                        c2: mk_ctl!($C2),
                        arena: None,
                    })
                }
            }
        }
    };
}
macro_rig!(macro2, 3, 1, 2, 3, 1, 2);
macro_rig!(macro5, 5, 3, 2, 5, 2, 4);

// ------------------------------------------------------------------------------------------

macro_rules! configs {
    ($($i:literal: $S:literal; $O1:literal, $O2:literal, $O3:literal; $C1:literal, $C2:literal;)*) => {
        pub const CONFIGS: &[Dims] = &[$(Dims { s: $S, o: [$O1, $O2, $O3], c: [$C1, $C2] }),*];
        fn mk_any_arena(cfg: usize, ext: bool, api: u32, layout: u32) -> Box<dyn Rig> {
            match cfg {
                $($i => mk_arena::<$S, $O1, $O2, $O3, $C1, $C2>(ext, api, layout),)*
                _ => panic!("harness: no such configuration"),
            }
        }
    };
}
configs! {
    0: 1; 1, 1, 2; 1, 0;
    1: 2; 1, 1, 2; 1, 2;
    2: 3; 1, 2, 3; 1, 2;
    3: 4; 2, 1, 3; 2, 1;
    4: 4; 1, 4, 5; 3, 0;
    5: 5; 3, 2, 5; 2, 4;
    6: 6; 2, 2, 4; 1, 3;
    7: 6; 6, 1, 7; 6, 2;
    8: 7; 1, 3, 4; 7, 1;
    9: 8; 3, 5, 8; 4, 2;
    10: 2; 4, 3, 7; 3, 1;
    11: 9; 1, 8, 9; 2, 5;
    12: 12; 4, 3, 7; 5, 2;
    13: 18; 3, 17, 20; 2, 9;
    14: 16; 2, 3, 5; 1, 4;
    15: 33; 1, 2, 3; 1, 0;
    16: 67; 1, 66, 67; 1, 3;
    17: 257; 1, 1, 2; 1, 0;
}

macro_rules! subset {
    ($f:ident, $mk:ident; $($i:literal: $S:literal; $O1:literal, $O2:literal, $O3:literal; $C1:literal, $C2:literal;)*) => {
        fn $f(cfg: usize, ext: bool, api: u32, layout: u32) -> Option<Box<dyn Rig>> {
            match cfg {
                $($i => Some($mk::<$S, $O1, $O2, $O3, $C1, $C2>(ext, api, layout)),)*
                _ => None,
            }
        }
    };
}
subset! { any_boxed, mk_boxed;
    1: 2; 1, 1, 2; 1, 2;
    4: 4; 1, 4, 5; 3, 0;
    10: 2; 4, 3, 7; 3, 1;
    12: 12; 4, 3, 7; 5, 2;
}
subset! { any_array, mk_array;
    0: 1; 1, 1, 2; 1, 0;
    3: 4; 2, 1, 3; 2, 1;
    8: 7; 1, 3, 4; 7, 1;
    9: 8; 3, 5, 8; 4, 2;
}
subset! { any_wrap, mk_wrap;
    0: 1; 1, 1, 2; 1, 0;
    3: 4; 2, 1, 3; 2, 1;
    6: 6; 2, 2, 4; 1, 3;
    11: 9; 1, 8, 9; 2, 5;
}
subset! { any_builder, mk_builder;
    0: 1; 1, 1, 2; 1, 0;
    2: 3; 1, 2, 3; 1, 2;
    4: 4; 1, 4, 5; 3, 0;
    7: 6; 6, 1, 7; 6, 2;
    10: 2; 4, 3, 7; 3, 1;
    13: 18; 3, 17, 20; 2, 9;
}
subset! { any_slice, mk_slice;
    1: 2; 1, 1, 2; 1, 2;
    2: 3; 1, 2, 3; 1, 2;
    4: 4; 1, 4, 5; 3, 0;
    6: 6; 2, 2, 4; 1, 3;
    9: 8; 3, 5, 8; 4, 2;
    10: 2; 4, 3, 7; 3, 1;
}

/// Which storage families exist for a configuration.
pub fn kinds(cfg: usize) -> Vec<RigKind> {
    let mut v = vec![RigKind::Arena];
    if [1, 4, 10, 12].contains(&cfg) {
        v.push(RigKind::Boxed);
    }
    if [0, 3, 8, 9].contains(&cfg) {
        v.push(RigKind::Array);
    }
    if [0, 2, 4, 7, 10, 13].contains(&cfg) {
        v.push(RigKind::Builder);
    }
    if [1, 2, 4, 6, 9, 10].contains(&cfg) {
        v.push(RigKind::Slice);
    }
    if [0, 3, 6, 11].contains(&cfg) {
        v.push(RigKind::Wrap);
    }
    if [2, 5].contains(&cfg) {
        v.push(RigKind::Macro);
    }
    v
}

pub fn make(kind: RigKind, cfg: usize, ext: bool, api: u32, layout: u32) -> Box<dyn Rig> {
    match kind {
        RigKind::Arena => mk_any_arena(cfg, ext, api, layout),
        RigKind::Boxed => any_boxed(cfg, ext, api, layout).expect("harness: rig"),
        RigKind::Array => any_array(cfg, ext, api, layout).expect("harness: rig"),
        RigKind::Wrap => any_wrap(cfg, ext, api, layout).expect("harness: rig"),
        RigKind::Builder => any_builder(cfg, ext, api, layout).expect("harness: rig"),
        RigKind::Slice => any_slice(cfg, ext, api, layout).expect("harness: rig"),
        RigKind::Macro => match cfg {
            2 => macro2::mk(ext, api),
            5 => macro5::mk(ext, api),
            _ => panic!("harness: rig"),
        },
    }
}

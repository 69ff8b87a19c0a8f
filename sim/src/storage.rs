//! Simulated memory for the filters' buffers, and the storage families the filters are built on.

use crate::scalar::{tick, Dyn};
use minikalman::matrix::{
    Matrix, MatrixData, MatrixDataArray, MatrixDataBoxed, MatrixDataRowMajorMut, MatrixMut,
    RowMajorSequentialData, RowMajorSequentialDataMut,
};
use std::ops::{Index, IndexMut};

/// Layout bits of the arena.
pub const L_OVERSIZE: u32 = 1; // buffers are longer than the matrices
pub const L_SHARE: u32 = 2; // scratch of different components occupies the same memory
pub const L_DIRTY: u32 = 4; // power-on garbage in all scratch memory
pub const L_ALIAS_SHIFT: u32 = 8; // 4 bits: documented aliasing variant within one component

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Name {
    X,
    P,
    A,
    Q,
    PredX,
    TempP,
    H(u8),
    Z(u8),
    R(u8),
    Y(u8),
    S(u8),
    K(u8),
    SInv(u8),
    HP(u8),
    PHt(u8),
    KHP(u8),
    B(u8),
    U(u8),
    Qc(u8),
    BQ(u8),
}

impl Name {
    /// The component whose steps may write this scratch memory, or None for inputs and state.
    pub fn scratch_of(self) -> Option<Comp> {
        use Name::*;
        Some(match self {
            PredX | TempP => Comp::Filter,
            Y(i) | S(i) | K(i) | SInv(i) | HP(i) | PHt(i) | KHP(i) => Comp::Obs(i),
            BQ(j) => Comp::Ctl(j),
            _ => return None,
        })
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Comp {
    Filter,
    Obs(u8),
    Ctl(u8),
}

#[derive(Clone, Copy, Debug)]
pub struct Region {
    pub name: Name,
    pub start: usize,
    pub len: usize,   // declared matrix size
    pub total: usize, // size of the slice handed to the library
}

pub struct Arena {
    /// Raw, so that buffers may point into it; never reallocated.
    mem: *mut Dyn,
    cap: usize,
    used: usize,
    pub regions: Vec<Region>,
    layout: u32,
    /// Room for the scratch of one component, and for one matrix of any shape.
    share_pool: usize,
    alias_room: usize,
    share_base: Option<usize>,
    share_pos: usize,
    share_comp: Option<Comp>,
}
unsafe impl Send for Arena {}

pub const GUARD: usize = 3;

impl Arena {
    /// Memory for one filter with its sensors and controls, none of whose dimensions exceeds `dim`.
    pub fn new(dim: usize, layout: u32) -> Arena {
        let alias_room = dim * dim;
        let share_pool = 7 * (alias_room + 4 + GUARD);
        let cap = if dim == 0 { 0 } else { BUFFERS * (alias_room + 4 + 2 * GUARD) + share_pool + 2 * GUARD };
        let v: Box<[Dyn]> = (0..cap).map(|i| Dyn(canary(i))).collect();
        Arena {
            mem: Box::into_raw(v) as *mut Dyn,
            cap,
            used: 0,
            regions: vec![],
            layout,
            share_pool,
            alias_room,
            share_base: None,
            share_pos: 0,
            share_comp: None,
        }
    }
    pub fn slice(&self) -> &[Dyn] {
        unsafe { std::slice::from_raw_parts(self.mem, self.used) }
    }
    #[allow(clippy::mut_from_ref)]
    pub fn slice_mut(&mut self) -> &mut [Dyn] {
        unsafe { std::slice::from_raw_parts_mut(self.mem, self.used) }
    }
    pub fn find(&self, name: Name) -> Option<Region> {
        self.regions.iter().copied().find(|r| r.name == name)
    }
    fn bump(&mut self, n: usize) -> usize {
        let s = self.used + GUARD;
        self.used = s + n + GUARD;
        assert!(self.used <= self.cap, "harness: arena too small");
        s
    }
    fn place(&mut self, name: Name, len: usize) -> *mut Dyn {
        let extra = if self.layout & L_OVERSIZE != 0 { 1 + (len % 4) } else { 0 };
        let mut total = len + extra;
        let alias = (self.layout >> L_ALIAS_SHIFT) & 15;
        let target = match (name, alias) {
            // S_inv may share with KHP; HP with PHt
            (Name::KHP(i), 1) => Some(Name::SInv(i)),
            (Name::PHt(i), 2) => Some(Name::HP(i)),
            (Name::KHP(i), 3) => Some(Name::PHt(i)),
            (Name::HP(i), 4) => Some(Name::SInv(i)),
            (Name::KHP(i), 5) => Some(Name::SInv(i)),
            (Name::PHt(i), 5) => Some(Name::HP(i)),
            (Name::HP(i), 6) => Some(Name::SInv(i)),
            (Name::KHP(i), 6) => Some(Name::PHt(i)),
            (Name::BQ(_), 7) => Some(Name::TempP),
            _ => None,
        };
        if let Some(t) = target {
            let r = self.find(t).expect("alias target");
            // grow the region at its end if it was the larger requirement: regions reserved for
            // aliasing are always allocated with the component's largest size
            assert!(r.total >= len, "harness: alias region too small");
            total = total.min(r.total).max(len);
            self.regions.push(Region { name, start: r.start, len, total });
            return unsafe { self.mem.add(r.start) };
        }
        let comp = name.scratch_of();
        let start = if self.layout & L_SHARE != 0 && comp.is_some() {
            if self.share_base.is_none() {
                self.share_base = Some(self.bump(self.share_pool));
            }
            if self.share_comp != comp {
                self.share_comp = comp;
                self.share_pos = 0;
            }
            let s = self.share_base.unwrap() + self.share_pos;
            self.share_pos += total + GUARD;
            assert!(self.share_pos <= self.share_pool, "harness: share pool too small");
            s
        } else if alias != 0 && comp.is_some() {
            // leave room for whatever is aliased onto this region
            let s = self.bump(self.alias_room);
            total = self.alias_room;
            s
        } else {
            self.bump(total)
        };
        self.regions.push(Region { name, start, len, total });
        unsafe { self.mem.add(start) }
    }
}
/// Six of the filter, ten of each of three sensors, four of each of two controls.
const BUFFERS: usize = 44;

pub fn canary(i: usize) -> u64 {
    // small positive integer patterns are valid in every number system
    (crate::rng::mix(i as u64 ^ 0xC0FFEE) & 0x3fff_ffff) | 1
}

impl Drop for Arena {
    fn drop(&mut self) {
        unsafe {
            drop(Box::from_raw(std::ptr::slice_from_raw_parts_mut(self.mem, self.cap)));
        }
    }
}

/// Matrix storage living in an [`Arena`].
pub struct ShMat<const R: usize, const C: usize> {
    ptr: *mut Dyn,
    len: usize,
}
unsafe impl<const R: usize, const C: usize> Send for ShMat<R, C> {}

impl<const R: usize, const C: usize> RowMajorSequentialData<R, C, Dyn> for ShMat<R, C> {
    fn as_slice(&self) -> &[Dyn] {
        tick();
        unsafe { std::slice::from_raw_parts(self.ptr, self.len) }
    }
}
impl<const R: usize, const C: usize> RowMajorSequentialDataMut<R, C, Dyn> for ShMat<R, C> {
    fn as_mut_slice(&mut self) -> &mut [Dyn] {
        tick();
        unsafe { std::slice::from_raw_parts_mut(self.ptr, self.len) }
    }
}
impl<const R: usize, const C: usize> Index<usize> for ShMat<R, C> {
    type Output = Dyn;
    fn index(&self, i: usize) -> &Dyn {
        &self.as_slice()[i]
    }
}
impl<const R: usize, const C: usize> IndexMut<usize> for ShMat<R, C> {
    fn index_mut(&mut self, i: usize) -> &mut Dyn {
        &mut self.as_mut_slice()[i]
    }
}
impl<const R: usize, const C: usize> Matrix<R, C, Dyn> for ShMat<R, C> {}
impl<const R: usize, const C: usize> MatrixMut<R, C, Dyn> for ShMat<R, C> {}

/// A family of matrix storages.
pub trait Fam: 'static {
    type M<const R: usize, const C: usize>: MatrixMut<R, C, Dyn> + Send;
    fn mk<const R: usize, const C: usize>(a: &mut Arena, name: Name) -> Self::M<R, C>;
    const IS_ARENA: bool;
}

pub struct ArenaFam;
impl Fam for ArenaFam {
    type M<const R: usize, const C: usize> = ShMat<R, C>;
    fn mk<const R: usize, const C: usize>(a: &mut Arena, name: Name) -> ShMat<R, C> {
        let ptr = a.place(name, R * C);
        let r = *a.regions.last().unwrap();
        ShMat { ptr, len: r.total }
    }
    const IS_ARENA: bool = true;
}

/// The library's wrapper around foreign storage.
pub struct WrapFam;
impl Fam for WrapFam {
    type M<const R: usize, const C: usize> = MatrixDataRowMajorMut<R, C, ShMat<R, C>, Dyn>;
    fn mk<const R: usize, const C: usize>(a: &mut Arena, name: Name) -> Self::M<R, C> {
        MatrixData::new_mut_from(ArenaFam::mk::<R, C>(a, name))
    }
    const IS_ARENA: bool = true;
}

pub struct BoxedFam;
impl Fam for BoxedFam {
    type M<const R: usize, const C: usize> = MatrixDataBoxed<R, C, Dyn>;
    fn mk<const R: usize, const C: usize>(_: &mut Arena, _: Name) -> MatrixDataBoxed<R, C, Dyn> {
        MatrixData::new_boxed::<R, C, Dyn, _>(vec![Dyn(0); R * C])
    }
    const IS_ARENA: bool = false;
}

pub const ARRAY_TOTAL: usize = 64;
pub struct ArrayFam;
impl Fam for ArrayFam {
    type M<const R: usize, const C: usize> = MatrixDataArray<R, C, ARRAY_TOTAL, Dyn>;
    fn mk<const R: usize, const C: usize>(
        _: &mut Arena,
        _: Name,
    ) -> MatrixDataArray<R, C, ARRAY_TOTAL, Dyn> {
        MatrixData::new_array::<R, C, ARRAY_TOTAL, Dyn>([Dyn(0); ARRAY_TOTAL])
    }
    const IS_ARENA: bool = false;
}

#![doc = include_str!("../doc/array.md")]

use core::marker::PhantomData;

use funty::Fundamental;

use crate::{
	mem,
	order::{
		BitOrder,
		Lsb0,
	},
	slice::BitSlice,
	view::BitViewSized,
};

mod api;
mod iter;
mod ops;
mod tests;
mod traits;

pub use self::iter::IntoIter;

#[repr(transparent)]
#[doc = include_str!("../doc/array/BitArray.md")]
pub struct BitArray<A = [usize; 1], O = Lsb0>
where
	A: BitViewSized,
	O: BitOrder,
{
	/// The ordering of bits within an `A::Store` element.
	pub _ord: PhantomData<O>,
	/// The wrapped data buffer.
	pub data: A,
}

impl<A, O> BitArray<A, O>
where
	A: BitViewSized,
	O: BitOrder,
{
	/// A bit-array with all bits initialized to zero.
	pub const ZERO: Self = Self {
		_ord: PhantomData,
		data: A::ZERO,
	};

	/// Wraps an existing buffer as a bit-array.
	///
	/// ## Examples
	///
	/// ```rust
	/// use bitvec::prelude::*;
	///
	/// let data = [0u16, 1, 2, 3];
	/// let bits = BitArray::<_, Msb0>::new(data);
	/// assert_eq!(bits.len(), 64);
	/// ```
	#[inline]
	pub fn new(data: A) -> Self {
		Self { data, ..Self::ZERO }
	}

	/// Removes the bit-array wrapper, returning the contained buffer.
	///
	/// ## Examples
	///
	/// ```rust
	/// use bitvec::prelude::*;
	///
	/// let bits = bitarr![0; 30];
	/// let native: [usize; 1] = bits.into_inner();
	/// ```
	#[inline]
	pub fn into_inner(self) -> A {
		self.data
	}

	/// Explicitly views the bit-array as a bit-slice.
	#[inline]
	pub fn as_bitslice(&self) -> &BitSlice<A::Store, O> {
		self.data.view_bits::<O>()
	}

	/// Explicitly views the bit-array as a mutable bit-slice.
	#[inline]
	pub fn as_mut_bitslice(&mut self) -> &mut BitSlice<A::Store, O> {
		self.data.view_bits_mut::<O>()
	}

	/// Views the bit-array as a slice of its underlying memory elements.
	#[inline]
	pub fn as_raw_slice(&self) -> &[A::Store] {
		self.data.as_raw_slice()
	}

	/// Views the bit-array as a mutable slice of its underlying memory
	/// elements.
	#[inline]
	pub fn as_raw_mut_slice(&mut self) -> &mut [A::Store] {
		self.data.as_raw_mut_slice()
	}

	/// Gets the length (in bits) of the bit-array.
	///
	/// This method is a compile-time constant.
	#[inline]
	pub fn len(&self) -> usize {
		mem::bits_of::<A>()
	}

	/// Tests whether the array is empty.
	///
	/// This method is a compile-time constant.
	#[inline]
	pub fn is_empty(&self) -> bool {
		mem::bits_of::<A>() == 0
	}

	/// Verification model: iterates over the bits by direct indexing.  An
	/// inherent method, so it shadows the `BitSlice::iter` reached by deref.
	#[inline]
	pub fn iter(&self) -> FastIter<'_, A, O> {
		FastIter { array: self, pos: 0, end: mem::bits_of::<A>() }
	}
}

#[doc(hidden)]
#[allow(missing_docs)]
#[derive(Clone)]
pub struct FastIter<'a, A, O>
where
	A: BitViewSized,
	O: BitOrder,
{
	array: &'a BitArray<A, O>,
	pos: usize,
	end: usize,
}

#[allow(missing_docs)]
impl<'a, A, O> FastIter<'a, A, O>
where
	A: BitViewSized,
	O: BitOrder,
{
	#[inline]
	pub fn by_vals(self) -> FastVals<'a, A, O> {
		FastVals(self)
	}

	#[inline]
	pub fn by_refs(self) -> Self {
		self
	}

	#[inline]
	fn get(&self, pos: usize) -> bool {
		let w = mem::bits_of::<<A::Store as crate::store::BitStore>::Mem>();
		let word = crate::store::BitStore::load_value(&self.array.data.as_raw_slice()[pos / w]);
		let i = unsafe { crate::index::BitIdx::new_unchecked((pos % w) as u8) };
		let m: <A::Store as crate::store::BitStore>::Mem =
			O::select::<<A::Store as crate::store::BitStore>::Mem>(i).into_inner();
		(word & m) == m
	}
}

#[repr(C, packed)]
struct Word(u64);

/// A block of message bits handed over by `FastVals::fold` to the hash model.
#[doc(hidden)]
#[allow(missing_docs, missing_debug_implementations)]
pub struct Block {
	pub on: bool,
	pub len: u32,
	pub word: u64,
}
#[doc(hidden)]
#[allow(missing_docs)]
pub static mut BLOCK: Block = Block { on: false, len: 0, word: 0x5eed_0004_0000_b10c };

#[allow(missing_docs)]
impl<'a, A, O> FastVals<'a, A, O>
where
	A: BitViewSized,
	O: BitOrder,
{
	/// Inherent, so that a prefix is again a `FastVals`.
	#[inline]
	pub fn take(self, n: usize) -> Self {
		let mut it = self.0;
		if n < it.end - it.pos {
			it.end = it.pos + n;
		}
		FastVals(it)
	}
}

macro_rules! fast {
	($t:ident, $item:ty, |$s:ident| $inner:expr, |$b:ident| $wrap:expr, $block:expr) => {
		impl<'a, A, O> Iterator for $t<'a, A, O>
		where
			A: BitViewSized,
			O: BitOrder,
		{
			type Item = $item;

			#[inline]
			fn next(&mut self) -> Option<$item> {
				let $s = self;
				let it = &mut $inner;
				if it.pos == it.end {
					return None;
				}
				let $b = it.get(it.pos);
				it.pos += 1;
				Some($wrap)
			}

			#[inline]
			fn fold<B, F>(self, init: B, mut f: F) -> B
			where
				F: FnMut(B, $item) -> B,
			{
				let mut s = self;
				let $s = &mut s;
				let it = &mut $inner;
				let mut acc = init;
				let mut pos = it.pos;
				if $block && unsafe { BLOCK.on } {
					let w = mem::bits_of::<<A::Store as crate::store::BitStore>::Mem>();
					let m: <A::Store as crate::store::BitStore>::Mem =
						O::select::<<A::Store as crate::store::BitStore>::Mem>(unsafe {
							crate::index::BitIdx::new_unchecked(0)
						})
						.into_inner();
					let lsb0 = m.as_u64() == 1;
					let total = mem::bits_of::<A>();
					let base = it.array.data.as_raw_slice().as_ptr() as *const u8;
					while lsb0 && pos < it.end {
						let mut n = it.end - pos;
						let mut word: u64;
						if pos % 64 == 0 && pos + 64 <= total {
							// little-endian targets only
							word = unsafe { (*(base.wrapping_add(pos / 8) as *const Word)).0 };
							if n > 64 {
								n = 64;
							}
						}
						else {
							word = crate::store::BitStore::load_value(
								&it.array.data.as_raw_slice()[pos / w],
							)
							.as_u64();
							let off = pos % w;
							if n > w - off {
								n = w - off;
							}
							word >>= off;
						}
						if n < 64 {
							word &= (1u64 << n) - 1;
						}
						unsafe {
							BLOCK.len = n as u32;
							BLOCK.word = word;
						}
						let $b = false;
						acc = f(acc, $wrap);
						pos += n;
					}
				}
				while pos < it.end {
					let $b = it.get(pos);
					acc = f(acc, $wrap);
					pos += 1;
				}
				acc
			}

			#[inline]
			fn size_hint(&self) -> (usize, Option<usize>) {
				let $s = self;
				let it = &$inner;
				(it.end - it.pos, Some(it.end - it.pos))
			}
		}

		impl<'a, A, O> DoubleEndedIterator for $t<'a, A, O>
		where
			A: BitViewSized,
			O: BitOrder,
		{
			#[inline]
			fn next_back(&mut self) -> Option<$item> {
				let $s = self;
				let it = &mut $inner;
				if it.pos == it.end {
					return None;
				}
				it.end -= 1;
				let $b = it.get(it.end);
				Some($wrap)
			}
		}

		impl<'a, A, O> ExactSizeIterator for $t<'a, A, O>
		where
			A: BitViewSized,
			O: BitOrder,
		{
		}

		impl<'a, A, O> core::iter::FusedIterator for $t<'a, A, O>
		where
			A: BitViewSized,
			O: BitOrder,
		{
		}
	};
}

#[doc(hidden)]
#[allow(missing_docs)]
#[derive(Clone)]
pub struct FastVals<'a, A, O>(FastIter<'a, A, O>)
where
	A: BitViewSized,
	O: BitOrder;

fast!(FastIter, &'static bool, |s| *s, |b| if b { &true } else { &false }, false);
fast!(FastVals, bool, |s| s.0, |b| b, true);

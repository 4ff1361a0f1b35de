// Abstraction of an encrypted Memory: the words it holds. Included as `fhevm::memory::verif`.
#[allow(unused_imports)]
use super::*;

#[allow(dead_code)]
pub(crate) fn polys(m: &Memory) -> usize { m.bits[0].data.len() }

/// Word j holds the term `f(j, bit)`; coefficients that hold no word get `pad(poly, coeff, bit)`.
#[cfg(phantom_sym)]
pub(crate) fn set(m: &mut Memory, mut f: impl FnMut(usize, usize) -> i64, mut pad: impl FnMut(usize, usize) -> i64) {
    use poulpy_hal::layouts::ZnxViewMut;
    let size = m.size;
    for (i, b) in m.bits.iter_mut().enumerate() {
        let mut j = 0;
        for g in b.data.iter_mut() {
            for c in g.data_mut().at_mut(0, 0).iter_mut() {
                *c = if j < size { f(j, i) } else { pad(j, i) };
                j += 1;
            }
        }
    }
}
/// terms of word j, least significant bit first
#[cfg(phantom_sym)]
pub(crate) fn get(m: &Memory, j: usize) -> Vec<i64> {
    use poulpy_core::layouts::LWEInfos;
    use poulpy_hal::layouts::ZnxView;
    m.bits.iter().map(|b| { let n = b.data[0].n().as_usize(); b.data[j / n].data().at(0, 0)[j % n] }).collect()
}

//! minimal ELF32 writer: text at 0, one RW segment at 0x40000
fn put(v: &mut Vec<u8>, x: u32, n: usize) { for i in 0..n { v.push((x >> (8 * i)) as u8); } }
/// phs: (flags, vaddr, memsz, bytes); secs: input (addr,size), output (addr,size)
pub fn elf(phs: &[(u32, u32, u32, Vec<u8>)], inp: (u32, u32), out: (u32, u32)) -> Vec<u8> {
    let names = b"\0.inpdata\0.outdata\0.shstrtab\0";
    let mut body: Vec<u8> = vec![];
    let mut hdr: Vec<u8> = vec![];
    for (fl, va, memsz, data) in phs {
        for x in [1, 0x400 + body.len() as u32, *va, *va, data.len() as u32, *memsz, *fl, 4] { put(&mut hdr, x, 4); }
        body.extend(data);
        while body.len() % 4 != 0 { body.push(0); }
    }
    let strtab = 0x400 + body.len();
    let shoff = (strtab + names.len() + 3) / 4 * 4;
    let mut v = vec![];
    for (x, n) in [(0x464C457Fu32, 4), (0x00010101, 4), (0, 4), (0, 4), (2, 2), (243, 2), (1, 4), (0, 4), (52, 4), (shoff as u32, 4), (0, 4),
        (52, 2), (32, 2), (phs.len() as u32, 2), (40, 2), (4, 2), (3, 2)] { put(&mut v, x, n); }
    v.extend(hdr);
    v.resize(0x400, 0);
    v.extend(&body);
    v.extend(names);
    v.resize(shoff, 0);
    for s in [[0u32; 10], [1, 1, 3, inp.0, 0x400, inp.1, 0, 0, 4, 0], [10, 1, 3, out.0, 0x400, out.1, 0, 0, 4, 0],
        [19, 3, 0, 0, strtab as u32, names.len() as u32, 0, 0, 1, 0]] { for x in s { put(&mut v, x, 4); } }
    v
}
#[allow(dead_code)]
pub fn words(w: &[u32]) -> Vec<u8> { w.iter().flat_map(|x| x.to_le_bytes()).collect() }

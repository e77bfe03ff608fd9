
// ------------------------------------------------------------ harness (appended)
#[allow(warnings, clippy::all)]
mod verif_ffi {
    use super::*;
    unsafe fn cube(p: *const f64, s: &[usize]) -> Vec<Vec<Vec<Complex64>>> {
        (0..s[0]).map(|i| (0..s[1]).map(|j| (0..s[2]).map(|k| {
            let at = 2 * ((i * s[1] + j) * s[2] + k);
            Complex { re: *p.add(at), im: *p.add(at + 1) }
        }).collect()).collect()).collect()
    }
    unsafe fn put(out: *mut f64, rows: impl Iterator<Item = Complex64>, n: usize) -> i64 {
        let mut count = 0;
        for v in rows { if count < n { *out.add(2 * count) = v.re; *out.add(2 * count + 1) = v.im; } count += 1; }
        count as i64
    }
    fn guard(f: impl FnOnce() -> i64 + std::panic::UnwindSafe) -> i64 { std::panic::catch_unwind(f).unwrap_or(-1) }
    #[no_mangle]
    pub unsafe extern "C" fn v_energies(ft: *const f64, s: *const usize, r: *const usize, p: *const f64, out: *mut f64, n: usize) -> i64 {
        guard(|| {
            let s = std::slice::from_raw_parts(s, 3); let r = std::slice::from_raw_parts(r, 3); let p = std::slice::from_raw_parts(p, 4);
            let o = calculate_off_diagonal_energies(cube(ft, s), [r[0], r[1], r[2]], p[0], p[1], p[2], p[3]);
            put(out, o.into_iter().flatten(), n)
        })
    }
    #[no_mangle]
    pub unsafe extern "C" fn v_energies2(ft: *const f64, s: *const usize, z: *const f64, r: *const usize, out: *mut f64, n: usize) -> i64 {
        guard(|| {
            let s = std::slice::from_raw_parts(s, 3); let r = std::slice::from_raw_parts(r, 3);
            let z = cube(z, &[1, r[2], s[2]]).pop().unwrap();
            let o = calculate_off_diagonal_energies2(cube(ft, s), z, [r[0], r[1], r[2]]);
            put(out, o.into_iter().flatten(), n)
        })
    }
    #[no_mangle]
    pub unsafe extern "C" fn v_sho(z: *const f64, nz: usize, omega: f64, mass: f64, n: u32, out: *mut f64) -> i64 {
        guard(|| {
            let o = get_sho_wavefunction(std::slice::from_raw_parts(z, nz).to_vec(), omega, mass, n);
            for (i, v) in o.iter().enumerate() { if i < nz { *out.add(i) = *v; } }
            o.len() as i64
        })
    }
    #[no_mangle]
    pub unsafe extern "C" fn v_hermite(x: f64, n: u32, out: *mut f64) -> i64 { guard(|| { *out = get_hermite_val(x, n); 1 }) }
    #[no_mangle]
    pub unsafe extern "C" fn v_wavefunction(r: *const usize, p: *const f64, v: *const f64, nv: usize, x: *const f64, nx: usize, out: *mut f64) -> i64 {
        guard(|| {
            let r = std::slice::from_raw_parts(r, 3); let p = std::slice::from_raw_parts(p, 8);
            let v = cube(v, &[1, 1, nv]).pop().unwrap().pop().unwrap();
            let x = (0..nx).map(|i| [*x.add(3 * i), *x.add(3 * i + 1), *x.add(3 * i + 2)]).collect();
            let o = get_eigenstate_wavefunction([r[0], r[1], r[2]], (p[0], p[1]), (p[2], p[3]), p[4], p[5], p[6], p[7], v, x);
            put(out, o.into_iter(), nx)
        })
    }
}

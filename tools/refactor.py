"""Refactoring campaign: edits that keep the behaviour, on which every check has to stay quiet.   refactor.py [-j N] [name ...]"""
import json, os, re, subprocess, sys, concurrent.futures as cf, queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC = 'src/physics/single_chain/'
MATH = 'src/math/mod.rs'
ALL = [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]
R = {}
ROOT = os.environ.get('RT', '/tmp/rt')


def rf(name, *edits):
    assert name not in R, name
    R[name] = edits


def body(src, fn, new):
    """replace the body of a free function"""
    m = re.search(r'((?:pub )?fn %s(?:<[^(]*>)?\([^{]*?)\{\n(.*?)\n\}(?:\n|$)' % fn, src, re.S)
    assert m, fn
    return src[:m.start()] + m.group(1) + '{\n' + new.strip('\n') + '\n}\n' + src[m.end():]


def sub(old, new, n=1):
    def f(s):
        assert s.count(old) == n, (s.count(old), old[:80])
        return s.replace(old, new)
    return f


def bd(fn, new):
    return lambda s: body(s, fn, new)


def app(text):
    return lambda s: s + text


# ------------------------------------------------------------------------------------------------ math
NB = '''    let mut x = *guess;
    let mut residual_rel = 1.0;
    for _ in 0..*max_iters
    {
        if !(residual_rel > rel_tol)
        {
            break
        }
        let y_minus_f = y - f(&x);
        x += y_minus_f/fp(&x);
        residual_rel = (y_minus_f/y).abs();
    }
    x'''
rf('newton-for', (MATH, bd('inverse_newton_raphson', NB)))
rf('newton-loop', (MATH, bd('inverse_newton_raphson', '''    let mut x = *guess;
    let mut iters: u8 = 0;
    let mut residual_rel = 1.0;
    loop
    {
        if iters >= *max_iters || !(residual_rel > rel_tol)
        {
            return x;
        }
        let y_minus_f = y - f(&x);
        x += y_minus_f/fp(&x);
        iters += 1;
        residual_rel = (y_minus_f/y).abs();
    }''')))
rf('newton-helper', (MATH, bd('inverse_newton_raphson', '''    let mut x = *guess;
    let mut iters = 0;
    let mut residual_rel = 1.0;
    while residual_rel > rel_tol && &iters < max_iters
    {
        let (next, difference) = newton_step(y, f, fp, x);
        x = next;
        iters += 1;
        residual_rel = (difference/y).abs();
    }
    x'''), app('''
fn newton_step(y: &f64, f: &dyn Fn(&f64) -> f64, fp: &dyn Fn(&f64) -> f64, x: f64) -> (f64, f64)
{
    let difference = y - f(&x);
    (x + difference/fp(&x), difference)
}
''')))
rf('newton-delegates', (MATH, bd('inverse_newton_raphson_powered', '''    let mut x = *guess;
    let mut iters = 0_u8;
    let mut go_on = 1.0 > rel_tol && iters < *max_iters;
    while go_on && iters < *max_iters
    {
        let f_adj = f(&x) - y;
        x -= f_adj/fp(&x)/f64::from(power);
        iters += 1;
        let residual_rel = (f_adj/y).abs();
        go_on = residual_rel > rel_tol;
    }
    x''')))
rf('inverse-langevin-guess', (MATH, sub('&((2.14234*y_abs.powi(3) - 4.22785*y_abs.powi(2) + 3.0*y_abs)/(1.0 - y_abs)/(0.71716*y_abs.powi(3) - 0.41103*y_abs.powi(2) - 0.39165*y_abs + 1.0))', '&inverse_langevin_guess(y_abs)'), app('''
fn inverse_langevin_guess(y: f64) -> f64
{
    let numerator = y*(3.0 + y*(2.14234*y - 4.22785));
    let denominator = (1.0 - y)*(((0.71716*y - 0.41103)*y - 0.39165)*y + 1.0);
    numerator/denominator
}
''')))
rf('inverse-langevin-early', (MATH, bd('inverse_langevin', '''    let y_abs = y.abs();
    if y_abs <= 1e-3
    {
        return 3.0*y;
    }
    let langevin = |x: &f64| 1.0/x.tanh() - 1.0/x;
    let langevin_prime = |x: &f64| 1.0/x.powi(2) - 1.0/x.sinh().powi(2);
    let guess = (2.14234*y_abs.powi(3) - 4.22785*y_abs.powi(2) + 3.0*y_abs)/(1.0 - y_abs)/(0.71716*y_abs.powi(3) - 0.41103*y_abs.powi(2) - 0.39165*y_abs + 1.0);
    let x = inverse_newton_raphson(&y_abs, &langevin, &langevin_prime, &guess, &1e-6, &100);
    if y < &0.0 { -x } else { x }''')))
rf('integrate-1d-loop', (MATH, bd('integrate_1d', '''    let dx = (x_max - x_min)/(*num_points as f64);
    let mut total = 0.0;
    for index in 0..*num_points
    {
        let x = x_min + (0.5 + index as f64)*dx;
        total += f(&x);
    }
    total*dx''')))
rf('integrate-1d-fold', (MATH, bd('integrate_1d', '''    let dx = (x_max - x_min)/(*num_points as f64);
    (0..*num_points).fold(0.0, |total, index| total + f(&(x_min + (0.5 + index as f64)*dx)))*dx''')))
rf('integrate-1d-while', (MATH, bd('integrate_1d', '''    let dx = (x_max - x_min)/(*num_points as f64);
    let mut total = 0.0;
    let mut index: u128 = 0;
    while index < *num_points
    {
        total += f(&(x_min + (0.5 + index as f64)*dx));
        index += 1;
    }
    total*dx''')))
rf('integrate-2d-loops', (MATH, bd('integrate_2d', '''    let dx = (x_max - x_min)/(num_points as f64);
    let dy = (y_max - y_min)/(num_points as f64);
    let mut total = 0.0;
    for i in 0..num_points
    {
        let x = x_min + (0.5 + i as f64)*dx;
        for j in 0..num_points
        {
            let y = y_min + (0.5 + j as f64)*dy;
            total += f(&x, &y);
        }
    }
    total*dx*dy''')))
rf('integrate-2d-helper', (MATH, lambda s: body(body(s, 'integrate_2d', '''    let (grid_x, dx) = midpoints(x_min, x_max, num_points);
    let (grid_y, dy) = midpoints(y_min, y_max, num_points);
    integrate_2d_grid(f, &grid_x, &grid_y, &(dx*dy))'''), 'integrate_2d_symmetric', '''    let (grid, dx) = midpoints(x_min, x_max, num_points);
    integrate_2d_symmetric_grid(f, &grid, &(dx*dx))''') + '''
fn midpoints(x_min: &f64, x_max: &f64, num_points: u128) -> (Vec<f64>, f64)
{
    let dx = (x_max - x_min)/(num_points as f64);
    ((0..num_points).map(|index| x_min + (0.5 + index as f64)*dx).collect(), dx)
}
'''))
rf('integrate-grid-nested', (MATH, bd('integrate_2d_grid', '''    let mut total = 0.0;
    for x in grid_x.iter()
    {
        for y in grid_y
        {
            total += f(x, y);
        }
    }
    total*da''')))
rf('integrate-grid-rows', (MATH, bd('integrate_2d_grid', '''    let row = |x: &f64| grid_y.iter().map(|y| f(x, y)).sum::<f64>();
    let total: f64 = grid_x.iter().map(row).sum();
    da*total''')))
rf('lambert-helper', (MATH, bd('lambert_w', '''    let amount_of_iterations = ((x.log10()/3.0).ceil() as u8).max(16_u8);
    let mut w = 0.75*(x + 1.0).ln();
    for _iteration in 0..amount_of_iterations
    {
        let exponential = w.exp();
        let residual = w*exponential - x;
        let halley = (w + 2.0)*residual/(2.0*(w + 1.0));
        w -= residual/(exponential*(w + 1.0) - halley);
    }
    w''')))
rf('bessel-match', (MATH, bd('bessel_i', '''    let x_abs = x.abs();
    match *nu
    {
        0 => bessel_i0(&x_abs),
        1 => x.signum()*bessel_i1(&x_abs),
        _ => -1.0
    }''')))
rf('bessel-poly-helper', (MATH, lambda s: s.replace('more_coefficients.iter().enumerate().map(|(i, c)| c*t.powi(i.try_into().unwrap())).sum::<f64>()', 'polynomial(&more_coefficients, t)').replace('coefficients.iter().enumerate().map(|(i, c)| c*t.powi(i.try_into().unwrap())).sum::<f64>()', 'polynomial(&coefficients, t)').replace('coefficients.iter().enumerate().map(|(i, c)| c/x.powi(i.try_into().unwrap())).sum::<f64>()', 'polynomial(&coefficients, 1.0/x)') + '''
fn polynomial(coefficients: &[f64], t: f64) -> f64
{
    coefficients.iter().enumerate().map(|(i, c)| c*t.powi(i as i32)).sum()
}
'''))
rf('bessel-horner', (MATH, lambda s: s.replace('1.0 + t*coefficients.iter().enumerate().map(|(i, c)| c*t.powi(i.try_into().unwrap())).sum::<f64>()', '1.0 + t*coefficients.iter().rev().fold(0.0, |sum, c| sum*t + c)')))
rf('erfc-match', (MATH, bd('erfc', '''    let y = *x;
    if y < -6.1
    {
        return 2.0;
    }
    let decay = (-y*y).exp();
    erfcx(&y)*decay''')))
rf('erfcx-early', (MATH, bd('erfcx', '''    let inverse_sqrt_pi = 0.564_189_583_547_756_3;
    if x < &0.0
    {
        return if x < &-26.7
        {
            f64::MAX
        }
        else if x < &-6.1
        {
            2.0*(x.powi(2)).exp()
        }
        else
        {
            2.0*(x.powi(2)).exp() - erfcx_helper(&(400.0/(4.0 - x)))
        };
    }
    if x > &5e7
    {
        return inverse_sqrt_pi/x;
    }
    if x >= &50.0
    {
        let x2 = x*x;
        return inverse_sqrt_pi*(x2*(x2 + 4.5) + 2.0)/(x*(x2*(x2 + 5.0) + 3.75));
    }
    erfcx_helper(&(400.0/(4.0 + x)))''')))
rf('erf-direct', (MATH, bd('erf', '''    let complement = erfc(x);
    1.0 - complement''')))

# ------------------------------------------------------------------------------------------------ WLC, FJC
W = SC + 'wlc/thermodynamics/isometric/mod.rs'


def wlc_helper(s):
    blk = '''    let d: f64;
    let e: f64;
    if nondimensional_persistance_length < &0.125
    {
        d = 1.0;
        e = (0.75/PI/nondimensional_persistance_length).powf(1.5)*(1.0 - 1.25*nondimensional_persistance_length);
    }
    else
    {
        d = 1.0 - 1.0/(0.177/(nondimensional_persistance_length - 0.111) + 6.40*(nondimensional_persistance_length - 0.111).powf(0.783));
        e = 112.04*nondimensional_persistance_length.powi(2)*(0.246/nondimensional_persistance_length - a*nondimensional_persistance_length).exp();
    }
'''
    assert blk in s
    return s.replace(blk, '    let (d, e) = stiffness_factors(*nondimensional_persistance_length, a);\n') + '''
fn stiffness_factors(zeta: f64, a: f64) -> (f64, f64)
{
    if zeta < 0.125
    {
        return (1.0, (0.75/PI/zeta).powf(1.5)*(1.0 - 1.25*zeta));
    }
    let shifted = zeta - 0.111;
    (1.0 - 1.0/(0.177/shifted + 6.40*shifted.powf(0.783)), 112.04*zeta.powi(2)*(0.246/zeta - a*zeta).exp())
}
'''


rf('wlc-helper', (W, wlc_helper))


def wlc_loops(s):
    old = 'let sum = (0..2).collect::<Vec<usize>>().iter().map(|i| (1..4).collect::<Vec<usize>>().iter().map(|j| c[*i][j - 1]*(nondimensional_persistance_length.powi(*i as i32 - 1)*g2.powi((*j).try_into().unwrap()))).sum::<f64>()).sum::<f64>();'
    assert old in s
    return s.replace(old, '''let mut sum = 0.0;
    for (i, row) in c.iter().enumerate()
    {
        let weight = nondimensional_persistance_length.powi(i as i32 - 1);
        for (j, entry) in row.iter().enumerate()
        {
            sum += entry*weight*g2.powi(j as i32 + 1);
        }
    }''')


rf('wlc-loops', (W, wlc_loops))
rf('wlc-free-energy-from-distribution', (W, sub('    nondimensional_relative_helmholtz_free_energy(&(persistance_length/contour_length), &(end_to_end_length/contour_length))*BOLTZMANN_CONSTANT*temperature\n', '''    let thermal_energy = BOLTZMANN_CONSTANT*temperature;
    let zeta = persistance_length/contour_length;
    let gamma = end_to_end_length/contour_length;
    thermal_energy*nondimensional_relative_helmholtz_free_energy(&zeta, &gamma)
''')))
F = SC + 'fjc/thermodynamics/isometric/mod.rs'
rf('fjc-force-order', (F, bd('nondimensional_force', '''    let n = f64::from(*number_of_links);
    let gamma = *nondimensional_end_to_end_length_per_link;
    let sums = treloar_sums(number_of_links, &gamma, &[0, 1]);
    let ratio = sums[1]/sums[0];
    let correction = (0.5*n - 1.0)*ratio;
    (correction + gamma.recip())/n'''), ))
rf('fjc-helper-contour', (F, lambda s: s.replace('&(end_to_end_length/((*number_of_links as f64)*link_length))', '&per_link(number_of_links, link_length, end_to_end_length)') + '''
fn per_link(number_of_links: &u8, link_length: &f64, end_to_end_length: &f64) -> f64
{
    let contour_length = (*number_of_links as f64)*link_length;
    end_to_end_length/contour_length
}
'''))
rf('fjc-relative-lnratio', (F, bd('nondimensional_relative_helmholtz_free_energy', '''    let reference = nondimensional_equilibrium_distribution(number_of_links, &ZERO);
    let density = nondimensional_equilibrium_distribution(number_of_links, nondimensional_end_to_end_length_per_link);
    reference.ln() - density.ln()''')))
rf('fjc-radial-order', (F, bd('nondimensional_equilibrium_radial_distribution', '''    let gamma = nondimensional_end_to_end_length_per_link;
    let density = nondimensional_equilibrium_distribution(number_of_links, gamma);
    density*gamma*gamma*PI*4.0''')))


def treloar_loop(s):
    m = re.search(r'fn treloar_sums\([^{]*\{\n(.*?)\n\}\n', s, re.S)
    return s


# ------------------------------------------------------------------------------------------------ samplers
MC = SC + 'fjc/thermodynamics/isometric/monte_carlo/mod.rs'
rf('mc-fjc-for', (MC, bd('random_configuration', '''    let mut position = [0.0_f64; 3];
    let mut configuration = [[0.0; 3]; NUMBER_OF_LINKS];
    for coordinate in configuration.iter_mut()
    {
        let phi = TWO_PI * rng.gen::<f64>();
        let cos_theta = 1.0 - 2.0 * rng.gen::<f64>();
        let theta = cos_theta.acos();
        let step = [theta.sin() * phi.cos(), theta.sin() * phi.sin(), theta.cos()];
        for i in 0..3
        {
            position[i] += step[i];
        }
        *coordinate = position;
    }
    configuration''')))
rf('mc-fjc-helper', (MC, bd('random_configuration', '''    let mut position = [0.0; 3];
    let mut configuration = [[0.0; 3]; NUMBER_OF_LINKS];
    for index in 0..NUMBER_OF_LINKS
    {
        let step = random_direction(rng);
        position.iter_mut().zip(step.iter()).for_each(|(position_i, step_i)| *position_i += step_i);
        configuration[index] = position;
    }
    configuration'''), app('''
fn random_direction(rng: &mut ThreadRng) -> [f64; 3]
{
    let phi = TWO_PI * rng.gen::<f64>();
    let theta = (1.0 - 2.0 * rng.gen::<f64>()).acos();
    let (sin_theta, cos_theta) = theta.sin_cos();
    [sin_theta * phi.cos(), sin_theta * phi.sin(), cos_theta]
}
''')))
rf('mc-fjc-position', (MC, sub('''        for (bin_edge, bin_count) in bin_edges.iter().zip(bin_counts.iter_mut())
        {
            if &gamma < bin_edge
            {
                *bin_count += 1;
                break
            }
        }
''', '''        if let Some(bin_index) = bin_edges.iter().position(|bin_edge| &gamma < bin_edge)
        {
            bin_counts[bin_index] += 1;
        }
''')))
rf('mc-fjc-find', (MC, sub('''        for (bin_edge, bin_count) in bin_edges.iter().zip(bin_counts.iter_mut())
        {
            if &gamma < bin_edge
            {
                *bin_count += 1;
                break
            }
        }
''', '''        let mut bin_index = 0;
        while bin_index < NUMBER_OF_BINS && gamma >= bin_edges[bin_index]
        {
            bin_index += 1;
        }
        if bin_index < NUMBER_OF_BINS
        {
            bin_counts[bin_index] += 1;
        }
''')))
rf('mc-fjc-arrays', (MC, sub('''    let mut bin_edges = [0.0_f64; NUMBER_OF_BINS];
    bin_edges.iter_mut().enumerate().for_each(|(bin_index, bin_edge)|
        *bin_edge = (bin_index as f64 + 1.0)/(NUMBER_OF_BINS as f64)
    );
''', '''    let bin_edges: [f64; NUMBER_OF_BINS] = std::array::from_fn(|bin_index| (bin_index as f64 + 1.0)/(NUMBER_OF_BINS as f64));
'''), sub('(0..number_of_samples).for_each(|_sample_num|{', 'for _ in 0..number_of_samples\n    {'), sub('''            }
        }
    });
    let normalization''', '''            }
        }
    }
    let normalization'''), sub('''    let mut bin_probabilities = [0.0_f64; NUMBER_OF_BINS];
    bin_probabilities.iter_mut().zip(bin_counts.iter()).for_each(|(bin_probability, bin_count)|
        *bin_probability = (*bin_count as f64)/normalization
    );
''', '''    let bin_probabilities = bin_counts.map(|bin_count| bin_count as f64/normalization);
''')))
FMC = SC + 'frc/thermodynamics/isometric/monte_carlo/mod.rs'
rf('mc-frc-local', (FMC, sub('''    configuration.iter_mut().for_each(|coordinate|{
        phi = TWO_PI * rng.gen::<f64>();
        phi_cos = phi.cos();
        phi_sin = phi.sin();
        t = std::array::from_fn(|_| rng.gen::<f64>());
        u = cross(&r, &t);
        u_normalization = u.iter().map(|u_i| u_i * u_i).sum::<f64>().sqrt();
        u.iter_mut().for_each(|u_i| *u_i /= u_normalization);
        v = cross(&r, &u);
''', '''    configuration.iter_mut().for_each(|coordinate|{
        phi = TWO_PI * rng.gen::<f64>();
        (phi_sin, phi_cos) = phi.sin_cos();
        for t_i in t.iter_mut()
        {
            *t_i = rng.gen::<f64>();
        }
        u = normalize(&cross(&r, &t));
        v = cross(&r, &u);
'''), sub('    let mut u_normalization = 0.0;\n', ''), app('''
fn normalize(u: &[f64; 3]) -> [f64; 3]
{
    let norm = u.iter().map(|u_i| u_i.powi(2)).sum::<f64>().sqrt();
    [u[0] / norm, u[1] / norm, u[2] / norm]
}
''')))
rf('mc-frc-gamma-max', (FMC, sub('''    let gamma_max = if NUMBER_OF_LINKS % 2 == 0 {
        (2.0 - 2.0*(PI - theta).cos()).sqrt()/2.0
    } else {
        ((number_of_links_f64.powi(2) + 1.0 + (number_of_links_f64.powi(2) - 1.0)*theta.cos())/2.0).sqrt()/number_of_links_f64
    };
''', '''    let gamma_max = largest_extension(NUMBER_OF_LINKS, theta);
'''), app('''
fn largest_extension(number_of_links: usize, theta: &f64) -> f64
{
    let n2 = (number_of_links as f64).powi(2);
    match number_of_links % 2
    {
        0 => (0.5*(1.0 + theta.cos())).sqrt(),
        _ => ((n2 + 1.0 + (n2 - 1.0)*theta.cos())/2.0/n2).sqrt()
    }
}
'''), sub('use std::f64::consts::PI;\n', '')))
rf('mc-frc-check-once', (FMC, sub('''        for (bin_edge, bin_count) in bin_edges.iter().zip(bin_counts.iter_mut())
        {
            if gamma > gamma_max
            {
                panic!()
            }
''', '''        if gamma > gamma_max
        {
            panic!()
        }
        for (bin_edge, bin_count) in bin_edges.iter().zip(bin_counts.iter_mut())
        {
''')))

# ------------------------------------------------------------------------------------------------ bindings
def crate_ex(p):
    return SC + p + '/ex.rs'


def ex_locals(s):
    """every C export computes its result into a local variable and passes references of shadowing locals"""
    return re.sub(r'\{\n    (super::[^\n]*)\n\}', r'{\n    let result = \1;\n    result\n}', s)


def ex_return(s):
    return re.sub(r'\{\n    (super::[^\n]*)\n\}', r'{\n    return \1;\n}', s)


def ex_renamed(s):
    """the last argument through a local reference"""
    return re.sub(r'\{\n    (super::\w+)\((.*), &(\w+)\)\n\}', r'{\n    let last: &f64 = &\3;\n    \1(\2, last)\n}', s)


rf('ex-locals', (SC + 'wlc/thermodynamics/isotensional/ex.rs', ex_locals), (SC + 'fjc/thermodynamics/isometric/ex.rs', ex_locals), (SC + 'ufjc/morse/thermodynamics/isotensional/ex.rs', ex_locals))
rf('ex-return', (SC + 'swfjc/thermodynamics/isotensional/ex.rs', ex_return), (SC + 'efjc/thermodynamics/isometric/asymptotic/legendre/ex.rs', ex_return))
rf('ex-renamed', (SC + 'ufjc/log_squared/thermodynamics/isotensional/asymptotic/ex.rs', ex_renamed), (SC + 'ideal/thermodynamics/isometric/ex.rs', ex_renamed))


def py_named(s):
    """the closure of mapv gets a name, the array a binding"""
    return re.sub(r'\n        (\w+)\.as_array\(\)\.mapv\(\|(\w+): f64\| (super::[^\n]*)\)\.into_pyarray\(py\)\n',
                  r'\n        let values = \1.as_array();\n        let evaluate = |\2: f64| \3;\n        let result = values.mapv(evaluate);\n        result.into_pyarray(py)\n', s)


def py_block(s):
    return re.sub(r'mapv\(\|(\w+): f64\| (super::[^\n]*)\)\.into_pyarray\(py\)\n', r'mapv(|x: f64|\n        {\n            let \1 = x;\n            \2\n        }).into_pyarray(py)\n', s)


rf('py-named', (SC + 'swfjc/thermodynamics/isotensional/py.rs', py_named), (SC + 'wlc/thermodynamics/isometric/py.rs', py_named))
rf('py-block', (SC + 'ufjc/morse/thermodynamics/isotensional/py.rs', py_block), (SC + 'fjc/thermodynamics/modified_canonical/py.rs', py_block))


def jl_return(s):
    """the broadcast result through a local variable"""
    return re.sub(r'    return broadcast\(\n(.*?)\n    \)\nend', lambda m: '    values = broadcast(\n' + m.group(1) + '\n    )\n    return values\nend', s, flags=re.S)


def jl_implicit(s):
    return s.replace('    return broadcast(', '    broadcast(')


def jl_rename(s):
    """the parameters of the broadcast closure get other names"""
    return re.sub(r'\b(\w+)_i\b', r'\1_value', s)


rf('jl-return', (SC + 'fjc/thermodynamics/isotensional/mod.jl', jl_return))
rf('jl-implicit', (SC + 'wlc/thermodynamics/isometric/mod.jl', jl_implicit))
rf('jl-rename', (SC + 'swfjc/thermodynamics/isotensional/mod.jl', jl_rename))

# ------------------------------------------------------------------------------------------------ models
EI = SC + 'efjc/thermodynamics/isotensional/mod.rs'


def tail_expr(s, fn):
    """the last expression of a function, its body"""
    m = re.search(r'pub fn %s\([^{]*?\{\n(.*?)\n\}\n' % fn, s, re.S)
    return m


def efjc_helper(s):
    """the common part of the energies becomes one function"""
    m = tail_expr(s, 'nondimensional_gibbs_free_energy_per_link')
    expr = m.group(1)
    s = body(s, 'nondimensional_gibbs_free_energy_per_link', '    free_energy_core(link_length, hinge_mass, nondimensional_link_stiffness, nondimensional_force, temperature)')
    s = body(s, 'nondimensional_gibbs_free_energy', '    let per_link = free_energy_core(link_length, hinge_mass, nondimensional_link_stiffness, nondimensional_force, temperature);\n    per_link*(*number_of_links as f64)')
    s = body(s, 'gibbs_free_energy_per_link', '''    let thermal_energy = BOLTZMANN_CONSTANT*temperature;
    thermal_energy*free_energy_core(link_length, hinge_mass, &(link_stiffness*link_length.powi(2)/thermal_energy), &(force*link_length/thermal_energy), temperature)''')
    s = body(s, 'gibbs_free_energy', '    gibbs_free_energy_per_link(link_length, hinge_mass, link_stiffness, force, temperature)*f64::from(*number_of_links)')
    return s + '\nfn free_energy_core(link_length: &f64, hinge_mass: &f64, nondimensional_link_stiffness: &f64, nondimensional_force: &f64, temperature: &f64) -> f64\n{\n' + expr + '\n}\n'


rf('efjc-helper', (EI, efjc_helper))


def efjc_erf_swap(s):
    return s.replace('let denominator = 4.0*nondimensional_force.sinh()*(1.0 + nondimensional_force/nondimensional_force.tanh()/nondimensional_link_stiffness);',
                     'let coth = nondimensional_force.tanh().recip();\n    let denominator = (1.0 + nondimensional_force*coth/nondimensional_link_stiffness)*4.0*nondimensional_force.sinh();')


rf('efjc-coth', (EI, efjc_erf_swap))

SW = SC + 'swfjc/thermodynamics/isotensional/mod.rs'


def sw_helper(s):
    s = s.replace('nondimensional_well_parameter*nondimensional_force*(nondimensional_well_parameter*nondimensional_force).cosh() - (nondimensional_well_parameter*nondimensional_force).sinh() - nondimensional_force*nondimensional_force.cosh() + nondimensional_force.sinh()', 'well_partition(&nondimensional_well_parameter, &nondimensional_force)')
    s = s.replace('&nondimensional_force)).ln()', '&nondimensional_force)).ln()')
    return s + '''
fn partition_term(argument: f64) -> f64
{
    argument*argument.cosh() - argument.sinh()
}

fn well_partition(nondimensional_well_parameter: &f64, nondimensional_force: &f64) -> f64
{
    partition_term(nondimensional_well_parameter*nondimensional_force) - partition_term(*nondimensional_force)
}
'''


rf('swfjc-helper', (SW, sw_helper))
rf('swfjc-ratio', (SW, bd('nondimensional_end_to_end_length_per_link', '''    let well = 1.0 + well_width/link_length;
    let stretched_force = well*nondimensional_force;
    let (numerator, denominator) = (
        well*stretched_force*stretched_force.sinh() - nondimensional_force*nondimensional_force.sinh(),
        stretched_force*stretched_force.cosh() - stretched_force.sinh() - nondimensional_force*nondimensional_force.cosh() + nondimensional_force.sinh()
    );
    numerator/denominator - 3.0/nondimensional_force''')))

MO = SC + 'ufjc/morse/thermodynamics/isotensional/mod.rs'


def morse_helper(s):
    e = '- nondimensional_link_energy*(1.0 - (-nondimensional_morse_parameter*(nondimensional_link_stretch - 1.0)).exp()).powi(2)'
    assert e in s
    s = s.replace(e, '- link_energy_at(&nondimensional_morse_parameter, nondimensional_link_energy, nondimensional_link_stretch)')
    return s + '''
fn link_energy_at(nondimensional_morse_parameter: &f64, nondimensional_link_energy: &f64, nondimensional_link_stretch: &f64) -> f64
{
    let unbroken = 1.0 - (nondimensional_morse_parameter*(1.0 - nondimensional_link_stretch)).exp();
    nondimensional_link_energy*unbroken*unbroken
}
'''


def morse_partition(s):
    """the partition function becomes one function used by both"""
    m = re.search(r'    let nondimensional_morse_parameter = .*?    let rescaled_partition_function = integrate_1d\(&rescaled_partition_function_integrand, &ZERO, &nondimensional_link_stretch_max, &POINTS\);\n', s, re.S)
    blk = m.group(0)
    assert s.count(blk) == 2
    i = s.rindex(blk)
    s = s[:i] + '    let rescaled_partition_function = partition(nondimensional_link_stiffness, nondimensional_link_energy, nondimensional_force);\n' + s[i + len(blk):]
    i = s.index(blk)
    s = s[:i] + '''    let nondimensional_morse_parameter = (0.5*nondimensional_link_stiffness/nondimensional_link_energy).sqrt();
    let nondimensional_link_stretch_max = 1.0 + 2.0_f64.ln()/nondimensional_morse_parameter;
    let rescaled_partition_function = partition(nondimensional_link_stiffness, nondimensional_link_energy, nondimensional_force);
''' + s[i + len(blk):]
    s = s.replace('''        (exponent_1.exp() + exponent_2.exp() - exponent_3.exp() + exponent_4.exp())/rescaled_partition_function
    };
    integrate_1d(&nondimensional_end_to_end_length_per_link_integrand, &ZERO, &nondimensional_link_stretch_max, &POINTS)''', '''        exponent_1.exp() + exponent_2.exp() - exponent_3.exp() + exponent_4.exp()
    };
    integrate_1d(&nondimensional_end_to_end_length_per_link_integrand, &ZERO, &nondimensional_link_stretch_max, &POINTS)/rescaled_partition_function''')
    return s + '\nfn partition(nondimensional_link_stiffness: &f64, nondimensional_link_energy: &f64, nondimensional_force: &f64) -> f64\n{\n' + blk.replace('    let rescaled_partition_function = ', '    ').rstrip(';\n') + '\n}\n'


rf('morse-helper', (MO, morse_helper))
rf('morse-partition', (MO, morse_partition))

TR = SC + 'fjc/thermodynamics/mod.rs'
rf('treloar-loop', (TR, bd('treloar_sums', '''    let number_of_links_f64 = *number_of_links as f64;
    let n = *number_of_links as u128;
    let p: i32 = (number_of_links - 2).into();
    let m = 0.5*(1.0 - *nondimensional_end_to_end_length_per_link);
    let k = (number_of_links_f64*m).ceil() as u128;
    let mut sums = Vec::new();
    for order in orders
    {
        let mut sum = 0.0;
        let mut sign = 1.0;
        for s in 0..k
        {
            let binomial = (1..=n).product::<u128>()/(1..=s).product::<u128>()/(1..=n-s).product::<u128>();
            sum += sign*(binomial as f64)*(m - (s as f64)/number_of_links_f64).powi(p - order);
            sign = -sign;
        }
        sums.push(sum);
    }
    sums''')))
rf('treloar-term', (TR, lambda s: s.replace('(-1.0_f64).powf(*s as f64)*(((1..=n).product::<u128>()/(1..=*s).product::<u128>()/(1..=n-s).product::<u128>()) as f64)*(m - (*s as f64)/number_of_links_f64)', 'signed_binomial(n, *s)*(m - (*s as f64)/number_of_links_f64)') + '''
fn factorial(n: u128) -> u128
{
    (1..=n).product()
}

fn signed_binomial(n: u128, s: u128) -> f64
{
    let sign = if s % 2 == 0 { 1.0 } else { -1.0 };
    sign*((factorial(n)/factorial(s)/factorial(n - s)) as f64)
}
'''))
rf('treloar-direct', (TR, lambda s: s.replace('(0..k).collect::<Vec::<u128>>().iter().map(|s| (-1.0_f64).powf(*s as f64)*(((1..=n).product::<u128>()/(1..=*s).product::<u128>()/(1..=n-s).product::<u128>()) as f64)*(m - (*s as f64)/number_of_links_f64).powi(p)).sum::<f64>()', '(0..k).map(|s| (-1.0_f64).powi(s as i32)*(((1..=n).product::<u128>()/(1..=s).product::<u128>()/(1..=n-s).product::<u128>()) as f64)*(m - (s as f64)/number_of_links_f64).powi(p)).sum::<f64>()')))

EL = SC + 'efjc/thermodynamics/isometric/asymptotic/legendre/mod.rs'


def efjc_guess(s):
    s = sub('''    let guess: f64 = if nondimensional_end_to_end_length_per_link < &1.0
    {
        inverse_langevin(nondimensional_end_to_end_length_per_link)
    }
    else
    {
        nondimensional_link_stiffness*(nondimensional_end_to_end_length_per_link - 1.0)
    };
''', '''    let guess = initial_guess(nondimensional_link_stiffness, nondimensional_end_to_end_length_per_link);
''')(s)
    return s + '''
fn initial_guess(nondimensional_link_stiffness: &f64, nondimensional_end_to_end_length_per_link: &f64) -> f64
{
    if *nondimensional_end_to_end_length_per_link >= 1.0
    {
        return nondimensional_link_stiffness*(nondimensional_end_to_end_length_per_link - 1.0);
    }
    inverse_langevin(nondimensional_end_to_end_length_per_link)
}
'''


def efjc_named(s):
    m = re.search(r'    inverse_newton_raphson\(nondimensional_end_to_end_length_per_link, &(\|nondimensional_force: &f64\| .*?), &(\|nondimensional_force: &f64\| .*?), &guess, (&[^,]*), (&\d+)\)\n', s)
    return s[:m.start()] + '    let extension = ' + m.group(1) + ';\n    let compliance = ' + m.group(2) + ';\n    let tolerance: f64 = ' + m.group(3)[1:] + ';\n    let nondimensional_force = inverse_newton_raphson(nondimensional_end_to_end_length_per_link, &extension, &compliance, &guess, &tolerance, ' + m.group(4) + ');\n    nondimensional_force\n' + s[m.end():]


def efjc_method(s):
    return s.replace('1.0/nondimensional_force.tanh() - 1.0/nondimensional_force + nondimensional_force/nondimensional_link_stiffness*(1.0 + (nondimensional_force.tanh() - 1.0/nondimensional_force.tanh() + 1.0/nondimensional_force)/(nondimensional_force.tanh() + nondimensional_force/nondimensional_link_stiffness))', 'isotensional_extension(nondimensional_link_stiffness, nondimensional_force)') + '''
use crate::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::nondimensional_end_to_end_length_per_link as isotensional_extension;
'''


rf('efjc-guess', (EL, efjc_guess))
rf('efjc-named', (EL, efjc_named))
rf('efjc-shared', (EL, efjc_method))

MCAN = SC + 'fjc/thermodynamics/modified_canonical/mod.rs'


def can_ratio(s):
    """lengths from the length per link; energies per link first"""
    s = body(s, 'end_to_end_length_per_link', '    end_to_end_length(number_of_links, link_length, potential_distance, potential_stiffness, temperature)/(*number_of_links as f64)')
    s = body(s, 'nondimensional_end_to_end_length', '    let number_of_links_f64 = *number_of_links as f64;\n    number_of_links_f64*nondimensional_end_to_end_length_per_link(number_of_links, nondimensional_potential_distance, nondimensional_potential_stiffness)')
    s = body(s, 'gibbs_free_energy', '''    let potential_energy = 0.5*potential_stiffness*potential_distance*potential_distance;
    let helmholtz = helmholtz_free_energy(number_of_links, link_length, hinge_mass, potential_distance, potential_stiffness, temperature);
    helmholtz - potential_energy''')
    s = body(s, 'gibbs_free_energy_per_link', '    gibbs_free_energy(number_of_links, link_length, hinge_mass, potential_distance, potential_stiffness, temperature)/(*number_of_links as f64)')
    s = body(s, 'relative_gibbs_free_energy_per_link', '    relative_gibbs_free_energy(number_of_links, link_length, potential_distance, potential_stiffness, temperature)/(*number_of_links as f64)')
    return s


def can_volume(s):
    """without the constant 4 pi that cancels in the ratio of the two integrals, and the relative energy as one logarithm"""
    f = re.search(r'pub fn nondimensional_force\(.*?\n\}\n', s, re.S)
    t = f.group(0)
    assert t.count('4.0*PI*') == 2
    return s.replace(t, t.replace('4.0*PI*', ''))


rf('canonical-ratio', (MCAN, can_ratio))
rf('canonical-volume', (MCAN, can_volume))

WT = SC + 'wlc/thermodynamics/isotensional/mod.rs'


def wlc_boltz(s):
    f = re.search(r'pub fn nondimensional_end_to_end_length\(.*?\n\}\n', s, re.S)
    t = f.group(0)
    u = t.replace('''        let exp_1 = (beta_f_xi - scale - beta_delta_psi).exp();
        let exp_2 = (-beta_f_xi - scale - beta_delta_psi).exp();
        ((exp_1 + exp_2)*''', '''        let weight = |sign: f64| (sign*beta_f_xi - (scale + beta_delta_psi)).exp();
        let (exp_1, exp_2) = (weight(1.0), weight(-1.0));
        ((exp_1 + exp_2)*''')
    assert u != t
    u = u.replace('    integrate_1d(&integrand_numerator, &ZERO, &ONE, &POINTS)/integrate_1d(&integrand_denominator, &ZERO, &ONE, &POINTS)', '    let denominator = integrate_1d(&integrand_denominator, &ZERO, &ONE, &POINTS);\n    let numerator = integrate_1d(&integrand_numerator, &ZERO, &ONE, &POINTS);\n    numerator/denominator')
    return s.replace(t, u)


def wlc_panic(s):
    return s.replace('''    if !(0.0..=1.0).contains(&gamma_hat)
    {
        panic!("Root finding failed!");
    }''', '''    let inside = gamma_hat >= 0.0 && gamma_hat <= 1.0;
    if !inside
    {
        panic!("Root finding failed!");
    }''')


rf('wlc-weight', (WT, wlc_boltz))
rf('wlc-assert', (WT, wlc_panic))

EMC = SC + 'efjc/thermodynamics/isometric/monte_carlo/mod.rs'
rf('mc-efjc-for', (EMC, bd('random_configuration', '''    let mut position = [0.0; 3];
    let mut configuration = [[0.0; 3]; NUMBER_OF_LINKS];
    for coordinate in configuration.iter_mut()
    {
        let lambda = dist.sample(rng);
        let phi = TWO_PI * rng.gen::<f64>();
        let cosine = 1.0 - 2.0 * rng.gen::<f64>();
        let theta = cosine.acos();
        let direction = [theta.sin() * phi.cos(), theta.sin() * phi.sin(), theta.cos()];
        for i in 0..3
        {
            position[i] += lambda * direction[i];
        }
        *coordinate = position;
    }
    configuration''')))
rf('mc-efjc-bins', (EMC, bd('nondimensional_equilibrium_radial_distribution', '''    let mut rng = rand::thread_rng();
    let dist = Normal::new(1.0, 1.0/kappa.sqrt()).unwrap();
    let bin_width = gamma_max/(NUMBER_OF_BINS as f64);
    let mut bin_counts = [0_u128; NUMBER_OF_BINS];
    for _ in 0..number_of_samples
    {
        let gamma = random_nondimensional_end_to_end_length::<NUMBER_OF_LINKS>(dist, &mut rng)/(NUMBER_OF_LINKS as f64);
        if gamma > *gamma_max
        {
            panic!()
        }
        for bin_index in 0..NUMBER_OF_BINS
        {
            if gamma < gamma_max * (bin_index as f64 + 1.0)/(NUMBER_OF_BINS as f64)
            {
                bin_counts[bin_index] += 1;
                break
            }
        }
    }
    let mut bin_centers = [0.0_f64; NUMBER_OF_BINS];
    let mut bin_probabilities = [0.0_f64; NUMBER_OF_BINS];
    for bin_index in 0..NUMBER_OF_BINS
    {
        bin_centers[bin_index] = bin_width * (bin_index as f64 + 0.5);
        bin_probabilities[bin_index] = (bin_counts[bin_index] as f64)/(number_of_samples as f64)/bin_width;
    }
    (bin_centers, bin_probabilities)''')))

FI = SC + 'fjc/thermodynamics/isometric/mod.rs'


def init_order(s):
    """the constructor names its parts before it builds the structure, in another order"""
    m = re.search(r'pub fn init\(number_of_links: u8, link_length: f64, hinge_mass: f64\) -> Self\n    \{\n        FJC\n        \{\n.*?\n        \}\n    \}\n', s, re.S)
    return s[:m.start()] + '''pub fn init(number_of_links: u8, link_length: f64, hinge_mass: f64) -> Self
    {
        let legendre = legendre::FJC::init(number_of_links, link_length, hinge_mass);
        Self
        {
            legendre,
            number_of_links,
            link_length,
            hinge_mass
        }
    }
''' + s[m.end():]


def relative_reorg(s):
    return body(s, 'nondimensional_relative_helmholtz_free_energy', '''    let reference = nondimensional_equilibrium_distribution(number_of_links, &ZERO).ln();
    let current = nondimensional_equilibrium_distribution(number_of_links, nondimensional_end_to_end_length_per_link).ln();
    reference - current''')


rf('fjc-init-order', (FI, init_order))
rf('fjc-relative-logs', (FI, relative_reorg))


# ------------------------------------------------------------------------------------------------ constitutive
H = 'src/constitutive/hyperelastic/buche_silberstein/mod.rs'
D = 'src/constitutive/hyperelastic_damage/buche_silberstein/mod.rs'
rf('hyper-loops', (H, sub('''            element.iter().zip(grid.iter()).flat_map(|(element_i, z_i)|
                element_i.iter().zip(grid.iter()).map(|(element_ij, r_j)|
                    element_ij / (factor * ((*z_i / stretch).powi(2) + stretch * r_j.powi(2))).exp()
                )
            ).sum::<f64>() / normalization
''', '''            let mut total = 0.0;
            for (element_i, z_i) in element.iter().zip(grid.iter())
            {
                for (element_ij, r_j) in element_i.iter().zip(grid.iter())
                {
                    let exponent = factor * ((*z_i / stretch).powi(2) + stretch * r_j.powi(2));
                    total += element_ij * (-exponent).exp();
                }
            }
            total / normalization
''')))
rf('hyper-index', (H, sub('''            element.iter().zip(grid.iter()).flat_map(|(element_i, z_i)|
                element_i.iter().zip(grid.iter()).map(|(element_ij, r_j)|
                    element_ij / (factor * ((*z_i / stretch).powi(2) + stretch * r_j.powi(2))).exp()
                )
            ).sum::<f64>() / normalization
''', '''            let mut total = 0.0;
            for i in 0..grid.len()
            {
                for j in 0..grid.len()
                {
                    total += element[i][j] / gaussian(factor, &(grid[i] / stretch), &grid[j], stretch);
                }
            }
            total / normalization
'''), app('''
fn gaussian(factor: &f64, z: &f64, r: &f64, stretch: &f64) -> f64
{
    (factor * (z.powi(2) + stretch * r.powi(2))).exp()
}
''')))
rf('hyper-init-loops', (H, sub('''    element.iter_mut().zip(grid.iter().zip(w.iter())).for_each(|(element_i, (z_i, w_i))|
        element_i.iter_mut().zip(grid.iter().zip(w.iter())).for_each(|(element_ij, (r_j, w_j))|
            *element_ij = nondimensional_force(&nondimensional_link_stiffness, &(z_i.powi(2) + r_j.powi(2)).sqrt())
                * (2.0 * z_i.powi(2) - r_j.powi(2)) * 2.0 * PI * (number_of_links as f64) * r_j
                / (z_i.powi(2) + r_j.powi(2)).sqrt() / (1.0 - w_i.powi(2)) / (1.0 - w_j.powi(2)) * dw.powi(2)
        )
    );
''', '''    for i in 0..NUMGRID
    {
        for j in 0..NUMGRID
        {
            let (z, r) = (grid[i], grid[j]);
            let rho = (z.powi(2) + r.powi(2)).sqrt();
            let jacobian = 1.0 / (1.0 - w[i].powi(2)) / (1.0 - w[j].powi(2));
            element[i][j] = nondimensional_force(&nondimensional_link_stiffness, &rho)
                * (2.0 * z.powi(2) - r.powi(2)) * 2.0 * PI * (number_of_links as f64) * r / rho * jacobian * dw.powi(2);
        }
    }
''')))
rf('damage-max', (D, sub('''            maximum_previous_stretch =
            if maximum_previous_stretch < stretch[i] {
                stretch[i]
            } else {
                maximum_previous_stretch
            };
''', '''            maximum_previous_stretch = stretch[i].max(maximum_previous_stretch);
''')))
rf('damage-for', (D, sub('''        let mut maximum_previous_stretch = 1.0;
        from_fn(|i|{
            maximum_previous_stretch =
            if maximum_previous_stretch < stretch[i] {
                stretch[i]
            } else {
                maximum_previous_stretch
            };
            uniaxial_tension(&self.element, &self.factor, &self.grid, &self.normalization, &self.method, &self.nondimensional_critical_extension, &self.nondimensional_link_stiffness, &self.number_of_links, &self.swelling_ratio, &stretch[i], &maximum_previous_stretch)
        })
''', '''        let mut maximum_previous_stretch = 1.0;
        let mut results = [[0.0; 2]; L];
        for (result, stretch_i) in results.iter_mut().zip(stretch.iter())
        {
            if maximum_previous_stretch < *stretch_i
            {
                maximum_previous_stretch = *stretch_i;
            }
            *result = uniaxial_tension(&self.element, &self.factor, &self.grid, &self.normalization, &self.method, &self.nondimensional_critical_extension, &self.nondimensional_link_stiffness, &self.number_of_links, &self.swelling_ratio, stretch_i, &maximum_previous_stretch);
        }
        results
''')))
rf('damage-if', (D, sub('''            cauchy_stress = element.iter().zip(grid.iter()).flat_map(|(element_i, z_i)|
                element_i.iter().zip(grid.iter()).map(|(element_ij, r_j)|
                    element_ij / (factor * ((*z_i / stretch).powi(2) + stretch * r_j.powi(2)) / j_1_3.powi(2)).exp() * ((
                        ((*z_i * maximum_previous_stretch / stretch).powi(2) + stretch / maximum_previous_stretch * r_j.powi(2)).sqrt()
                        <= *nondimensional_critical_extension
                    ) as u8 as f64)
                )
            ).sum::<f64>() / normalization;
''', '''            let mut stress = 0.0;
            for (element_i, z_i) in element.iter().zip(grid.iter())
            {
                for (element_ij, r_j) in element_i.iter().zip(grid.iter())
                {
                    let largest = ((*z_i * maximum_previous_stretch / stretch).powi(2) + stretch / maximum_previous_stretch * r_j.powi(2)).sqrt();
                    if largest > *nondimensional_critical_extension
                    {
                        continue;
                    }
                    stress += element_ij / (factor * ((*z_i / stretch).powi(2) + stretch * r_j.powi(2)) / j_1_3.powi(2)).exp();
                }
            }
            cauchy_stress = stress / normalization;
''')))


# ------------------------------------------------------------------------------------------------ third batch
DAMAGE = """    assert!(stretch >= &1.0);
    let j_1_3 = swelling_ratio.powf(1.0/3.0);
"""
INTACT = """    let intact = |z: &f64, r: &f64| -> bool
    {
        let ratio = maximum_previous_stretch / stretch;
        ((z * ratio).powi(2) + r.powi(2) / ratio).sqrt() <= *nondimensional_critical_extension
    };
"""
WEIGHT = """    let weight = |z: &f64, r: &f64| -> f64
    {
        let squared = (z / stretch).powi(2) + stretch * r.powi(2);
        match method
        {
            1 => panic!("Method number 1 not yet implemented."),
            2 => 1.0 / nondimensional_relative_helmholtz_free_energy(number_of_links, nondimensional_link_stiffness, &(squared.sqrt() / j_1_3)).exp(),
            3 => (-factor * squared / j_1_3.powi(2)).exp(),
            _ => panic!("Invalid method number.")
        }
    };
"""
rf('damage-weight', (D, bd('uniaxial_tension', DAMAGE + INTACT + WEIGHT + """    let mut stress = 0.0;
    let mut remaining = 0.0;
    for (element_i, z_i) in element.iter().zip(grid)
    {
        for (element_ij, r_j) in element_i.iter().zip(grid)
        {
            if intact(z_i, r_j)
            {
                let weight_ij = weight(z_i, r_j);
                stress += element_ij * weight_ij;
                remaining += r_j * weight_ij;
            }
        }
    }
    let dz = grid[1] - grid[0];
    [stress / normalization, remaining / normalization * 4.0 * PI * dz.powi(2) / swelling_ratio.powi(2)]""")))
rf('damage-filter', (D, bd('uniaxial_tension', DAMAGE + INTACT + WEIGHT + """    let cauchy_stress = element.iter().zip(grid.iter()).flat_map(|(element_i, z_i)|
        element_i.iter().zip(grid.iter()).filter(|(_, r_j)| intact(z_i, r_j)).map(|(element_ij, r_j)| element_ij * weight(z_i, r_j)).collect::<Vec<f64>>()
    ).sum::<f64>() / normalization;
    let total_probability = grid.iter().map(|z_i|
        grid.iter().filter(|r_j| intact(z_i, r_j)).map(|r_j| r_j * weight(z_i, r_j)).sum::<f64>()
    ).sum::<f64>() * 4.0 * PI * ((grid[1] - grid[0]) / swelling_ratio).powi(2) / normalization;
    [cauchy_stress, total_probability]""")))
rf('damage-for-filter', (D, bd('uniaxial_tension', DAMAGE + INTACT + WEIGHT + """    let mut stress = 0.0;
    let mut remaining = 0.0;
    for (element_i, z_i) in element.iter().zip(grid)
    {
        for (element_ij, r_j) in element_i.iter().zip(grid).filter(|(_, r)| intact(z_i, r))
        {
            stress += element_ij * weight(z_i, r_j);
            remaining += r_j * weight(z_i, r_j);
        }
    }
    [stress / normalization, remaining * 4.0 * PI * ((grid[1] - grid[0]) / swelling_ratio).powi(2) / normalization]""")))
rf('damage-fold', (D, bd('uniaxial_tension', DAMAGE + INTACT + WEIGHT + """    let [stress, remaining] = element.iter().zip(grid.iter()).fold([0.0, 0.0], |sums, (element_i, z_i)|
        element_i.iter().zip(grid.iter()).fold(sums, |[stress, remaining], (element_ij, r_j)|
        {
            if !intact(z_i, r_j)
            {
                return [stress, remaining]
            }
            let weight_ij = weight(z_i, r_j);
            [stress + element_ij * weight_ij, remaining + r_j * weight_ij]
        })
    );
    [stress / normalization, 4.0 * PI * remaining / normalization * ((grid[1] - grid[0]) / swelling_ratio).powi(2)]""")))
rf('damage-map', (D, sub("""        let mut maximum_previous_stretch = 1.0;
        from_fn(|i|{
            maximum_previous_stretch =
            if maximum_previous_stretch < stretch[i] {
                stretch[i]
            } else {
                maximum_previous_stretch
            };
            uniaxial_tension(&self""", """        let mut largest = [1.0; L];
        for i in 0..L
        {
            let before: f64 = if i == 0 { 1.0 } else { largest[i - 1] };
            largest[i] = before.max(stretch[i]);
        }
        from_fn(|i|{
            let maximum_previous_stretch = largest[i];
            uniaxial_tension(&self""")))
rf('hyper-weight', (H, bd('uniaxial_tension', """    tension(element, factor, grid, method, nondimensional_link_stiffness, number_of_links, &(1.0 / stretch), &stretch.sqrt()) / normalization"""),
   bd('equibiaxial_tension', """    -tension(element, factor, grid, method, nondimensional_link_stiffness, number_of_links, &stretch.powi(2), &(1.0 / stretch)) / normalization"""),
   app("""
#[allow(clippy::too_many_arguments)]
fn tension(element: &[[f64; NUMGRID]], factor: &f64, grid: &[f64], method: &u8, nondimensional_link_stiffness: &f64, number_of_links: &u8, along: &f64, across: &f64) -> f64
{
    let mut total = 0.0;
    for i in 0..NUMGRID
    {
        for j in 0..NUMGRID
        {
            let squared = (grid[i] * along).powi(2) + (grid[j] * across).powi(2);
            total += match method
            {
                1 => panic!("Method number 1 not yet implemented."),
                2 => element[i][j] * (-nondimensional_relative_helmholtz_free_energy(number_of_links, nondimensional_link_stiffness, &squared.sqrt())).exp(),
                3 => element[i][j] * (-factor * squared).exp(),
                _ => panic!("Invalid method number.")
            };
        }
    }
    total
}
""")))
TM = SC + 'fjc/thermodynamics/mod.rs'
rf('treloar-shared', (TM, bd('treloar_sums', """    orders.iter().map(|order| treloar_series(number_of_links, nondimensional_end_to_end_length_per_link, *order)).collect()"""),
   bd('treloar_sum_0_with_prefactor', """    let n = *number_of_links as u128;
    let prefactor = (n.pow(n as u32) as f64)/((1..=n-2).product::<u128>() as f64);
    0.125/PI/nondimensional_end_to_end_length_per_link*prefactor*treloar_series(number_of_links, nondimensional_end_to_end_length_per_link, 0)"""),
   app("""
fn binomial(n: u128, s: u128) -> f64
{
    ((1..=n).product::<u128>()/(1..=s).product::<u128>()/(1..=n-s).product::<u128>()) as f64
}

fn treloar_series(number_of_links: &u8, nondimensional_end_to_end_length_per_link: &f64, order: i32) -> f64
{
    let number_of_links_f64 = f64::from(*number_of_links);
    let n = u128::from(*number_of_links);
    let p: i32 = (number_of_links - 2).into();
    let m = 0.5*(1.0 - nondimensional_end_to_end_length_per_link);
    let k = (number_of_links_f64*m).ceil() as u128;
    (0..k).map(|s|
    {
        let sign = if s % 2 == 0 { 1.0 } else { -1.0 };
        sign*binomial(n, s)*(m - (s as f64)/number_of_links_f64).powi(p - order)
    }).sum()
}
""")))
rf('treloar-for', (TM, bd('treloar_sums', """    let number_of_links_f64 = *number_of_links as f64;
    let n = *number_of_links as u128;
    let p: i32 = (number_of_links - 2).into();
    let m = (1.0 - *nondimensional_end_to_end_length_per_link)/2.0;
    let k = (number_of_links_f64*m).ceil() as u128;
    let mut sums = vec![0.0; orders.len()];
    for s in 0..k
    {
        let sign = (-1.0_f64).powi(s as i32);
        let choose = ((1..=n).product::<u128>()/(1..=s).product::<u128>()/(1..=n-s).product::<u128>()) as f64;
        let base = m - (s as f64)/number_of_links_f64;
        for (sum, order) in sums.iter_mut().zip(orders.iter())
        {
            *sum += sign*choose*base.powi(p - order);
        }
    }
    sums""")))
rf('canonical-weight-helper', (SC + 'fjc/thermodynamics/modified_canonical/mod.rs', bd('nondimensional_helmholtz_free_energy', """    let number_of_links_f64 = *number_of_links as f64;
    let partition = integrate_1d(&|x: &f64| 4.0*PI*x.powi(2)*treloar_sum_0_with_prefactor(number_of_links, x)*well(number_of_links, nondimensional_potential_distance, nondimensional_potential_stiffness, x), &ZERO, &ONE, &POINTS);
    let momentum = 8.0*PI.powi(2)*hinge_mass*link_length.powi(2)*BOLTZMANN_CONSTANT*temperature/PLANCK_CONSTANT.powi(2);
    -(partition.ln() + (number_of_links_f64 - 1.0)*momentum.ln())"""), app("""
fn well(number_of_links: &u8, nondimensional_potential_distance: &f64, nondimensional_potential_stiffness: &f64, x: &f64) -> f64
{
    let stiffness = nondimensional_potential_stiffness*(*number_of_links as f64).powi(2);
    let near = (-0.5*stiffness*(nondimensional_potential_distance - x).powi(2)).exp();
    let far = (-0.5*stiffness*(nondimensional_potential_distance + x).powi(2)).exp();
    (near - far)/(2.0*stiffness*nondimensional_potential_distance*x)
}
""")))
rf('integrate-midpoints', (MATH, bd('integrate_1d', """    let dx = (x_max - x_min)/(*num_points as f64);
    midpoints(x_min, &dx, *num_points).map(|x| f(&x)).sum::<f64>()*dx"""), bd('integrate_2d', """    let dx = (x_max - x_min)/(num_points as f64);
    let dy = (y_max - y_min)/(num_points as f64);
    let mut total = 0.0;
    for x in midpoints(x_min, &dx, num_points)
    {
        for y in midpoints(y_min, &dy, num_points)
        {
            total += f(&x, &y);
        }
    }
    total*dx*dy"""), app("""
fn midpoints<'a>(x_min: &'a f64, dx: &'a f64, num_points: u128) -> impl Iterator<Item = f64> + 'a
{
    (0..num_points).map(move |index| x_min + (0.5 + index as f64)*dx)
}
""")))
rf('integrate-neumaier-free', (MATH, bd('integrate_2d_symmetric', """    integrate_2d(f, x_min, x_max, x_min, x_max, num_points)"""), bd('integrate_2d_symmetric_grid', """    integrate_2d_grid(f, grid, grid, da)""")))
rf('newton-tuple', (MATH, bd('inverse_newton_raphson', """    let (mut x, mut iterations, mut error) = (*guess, 0_u8, f64::MAX.min(1.0));
    while (iterations < *max_iters) & (error > rel_tol)
    {
        let difference = f(&x) - y;
        error = (difference/y).abs();
        x = x - difference/fp(&x);
        iterations = iterations + 1;
    }
    x""")))
rf('langevin-sign', (MATH, bd('inverse_langevin', """    if y.abs() <= 1e-3
    {
        return 3.0*y
    }
    let magnitude = y.abs();
    let langevin = |x: &f64| x.tanh().recip() - x.recip();
    let slope = |x: &f64| x.recip().powi(2) - x.sinh().recip().powi(2);
    let guess = (2.14234*magnitude.powi(3) - 4.22785*magnitude.powi(2) + 3.0*magnitude)/(1.0 - magnitude)/(0.71716*magnitude.powi(3) - 0.41103*magnitude.powi(2) - 0.39165*magnitude + 1.0);
    inverse_newton_raphson(&magnitude, &langevin, &slope, &guess, &1e-6, &100).copysign(*y)""")))
rf('lambert-named', (MATH, bd('lambert_w', """    let amount_of_iterations = ((x.log10()/3.0).ceil() as u8).max(16_u8);
    (0..amount_of_iterations).fold(0.75*(x + 1.0).ln(), |w, _|
    {
        let exp_w = w.exp();
        let residual = w*exp_w - x;
        w - residual/(exp_w*(w + 1.0) - 0.5*(w + 2.0)*residual/(w + 1.0))
    })""")))
rf('bessel-dispatch', (MATH, bd('bessel_i', """    let magnitude = x.abs();
    match *nu
    {
        0 => bessel_i0(&magnitude),
        1 => x.signum()*bessel_i1(&magnitude),
        _ => -1.0
    }""")))


def ex_macro(s):
    """the exports of one file generated by a macro"""
    out = re.sub(r'#\[no_mangle\]\n(?:#\[allow\([^\]]*\)\]\n)?pub extern fn (\w+)\(([^)]*)\) -> (\w+)\n\{\n    super::(\w+)\(([^)]*)\)\n\}\n', lambda m: 'export!(%s, %s, [%s]);\n' % (
        m.group(1), m.group(4), ', '.join(m.group(2).split(', '))), s)
    assert out != s, s[:400]
    head = """macro_rules! export
{
    ($symbol:ident, $target:ident, [$($name:ident: $kind:ty),*]) =>
    {
        #[no_mangle]
        #[allow(clippy::too_many_arguments)]
        pub extern fn $symbol($($name: $kind),*) -> f64
        {
            super::$target($(&$name),*)
        }
    };
}

"""
    return head + out


rf('ex-macro', (SC + 'efjc/thermodynamics/isotensional/ex.rs', ex_macro), (SC + 'wlc/thermodynamics/isometric/ex.rs', ex_macro))


def method_locals(s):
    """object methods which first name the nondimensional stiffness"""
    n = s.count('&(self.link_stiffness*self.link_length.powi(2)/BOLTZMANN_CONSTANT/temperature)')
    assert n
    i = s.index('impl EFJC')
    out = s[:i] + s[i:].replace('&(self.link_stiffness*self.link_length.powi(2)/BOLTZMANN_CONSTANT/temperature)', '&self.kappa(temperature)')
    return out + """
impl EFJC
{
    fn kappa(&self, temperature: &f64) -> f64
    {
        let thermal_energy = BOLTZMANN_CONSTANT*temperature;
        self.link_stiffness*self.link_length*self.link_length/thermal_energy
    }
}
"""


rf('method-kappa', (SC + 'efjc/thermodynamics/isotensional/mod.rs', method_locals), (SC + 'efjc/thermodynamics/isotensional/asymptotic/mod.rs', method_locals))
rf('swfjc-max-helper', (SC + 'swfjc/thermodynamics/isotensional/legendre/mod.rs', lambda s: s.replace('BOLTZMANN_CONSTANT*temperature*', 'thermal(temperature)*') + """
fn thermal(temperature: &f64) -> f64
{
    BOLTZMANN_CONSTANT*temperature
}
"""))


def macro_units(s):
    """dimensional functions written with a macro for kT"""
    out = s.replace('BOLTZMANN_CONSTANT*temperature*', 'kt!(temperature)*').replace('*BOLTZMANN_CONSTANT*temperature\n', '*kt!(temperature)\n')
    assert out != s
    i = out.index('pub struct')
    i = out.rindex('\n\n', 0, i)
    return out[:i] + """

macro_rules! kt
{
    ($temperature:expr) => { BOLTZMANN_CONSTANT*$temperature };
}""" + out[i:]


rf('units-macro', (SC + 'ufjc/morse/thermodynamics/isotensional/mod.rs', macro_units), (SC + 'wlc/thermodynamics/isometric/legendre/mod.rs', macro_units))


def py_loop(s):
    """Python methods which name the closure handed to mapv"""
    out = re.sub(r'(\n        )(\w+)\.as_array\(\)\.mapv\((\|\w+: f64\| [^\n]*)\)\.into_pyarray\(py\)', r'\1let evaluate = \3;\1let results = \2.as_array().mapv(evaluate);\1results.into_pyarray(py)', s)
    assert out != s
    return out


rf('py-loop', (SC + 'efjc/thermodynamics/isotensional/py.rs', py_loop), (SC + 'fjc/thermodynamics/modified_canonical/py.rs', py_loop))


def jl_loop(s):
    """ccall moved into a named inner function"""
    out = re.sub(r'    return broadcast\(\n        \(([^)]*)\) ->\s*ccall\(\n(.*?)\n        \),\n(.*?)\n    \)\nend', lambda m: '    evaluate(%s) = ccall(\n%s\n        )\n    return evaluate.(\n%s\n    )\nend' % (
        m.group(1), m.group(2), m.group(3)), s, flags=re.S)
    assert out != s
    return out


rf('jl-dot', (SC + 'fjc/thermodynamics/isometric/mod.jl', jl_loop))


def main():
    a = sys.argv[1:]
    j = 3
    ids = None
    while a and a[0].startswith('-'):
        o = a.pop(0)
        if o == '-j':
            j = int(a.pop(0))
        if o == '--checks':
            ids = a.pop(0).split(',')
    names = a or list(R)
    slots = queue.Queue()
    for i in range(j):
        slots.put(i)

    def go(n):
        i = slots.get()
        out = []
        try:
            w = ROOT + '/%d' % i
            os.makedirs(w, exist_ok=True)
            subprocess.run(['rsync', '-a', '--delete', '--exclude=/.git', '--exclude=/target', '--exclude=/data', '--exclude=/pages', '--exclude=/docs', '/repo/', w + '/'], check=True)
            for e in R[n]:
                if callable(e):
                    f, fs = last, [e]
                else:
                    f, fs = e[0], e[1:]
                last = f
                p = os.path.join(w, f)
                s = open(p, newline='').read()
                crlf = '\r\n' in s
                s = s.replace('\r\n', '\n')
                for q in fs:
                    s = q(s)
                open(p, 'w', newline='').write(s.replace('\n', '\r\n') if crlf else s)
            files = [e[0] for e in R[n] if not callable(e)]
            env = dict(os.environ, PV_REPO=w, PV_WORK=ROOT + '/work%d' % i, PV_EVIDENCE=ROOT + '/ev%d' % i)
            order = [x for x in ALL if ids is None or x in ids]
            if not any('math' in f for f in files):
                order = [x for x in order if x not in ('G01', 'G02', 'G03')]
            elif ids is None:
                order = ['G03' if n.startswith(('erf', 'bessel', 'lambert')) else 'G02', 'G01', 'G02', 'C06', 'C11', 'C10', 'D01', 'D03', 'D04', 'C07', 'C04']
            for c in order:
                r = subprocess.run(['python3-vt', V + '/check.py', c], cwd=V, env=env, capture_output=True, text=True)
                o = r.stdout + r.stderr
                if r.returncode:
                    out.append('%s exit %d: %s' % (c, r.returncode, ' | '.join(l[:220] for l in o.splitlines() if 'obligations' not in l and 'KNOWN' not in l)[:700]))
                    if 'does not type-check' in o:
                        out = ['DOES NOT COMPILE ' + ' | '.join(re.findall(r'error(?:\[E\d+\])?: .*', o)[:3])]
                        break
                elif 'INCOMPLETE' in o:
                    out.append('%s INCOMPLETE %s' % (c, o[-700:]))
                else:
                    m = re.search(r'(\d+) undecided', o)
                    base = json.load(open(V + '/tools/undecided.json')).get(c, 0)
                    if m and int(m.group(1)) > base:
                        ev = json.load(open(ROOT + '/ev%d/%s.json' % (i, c)))
                        out.append('%s: %s undecided (base %d) %s' % (c, m.group(1), base, [x['obligation'] + ': ' + x['why'][:90] for x in ev['coverage']['undecided_samples'] if 'not an instance' not in x['why']][:2]))
            return n, out
        except Exception as e:
            return n, ['EXC %r' % e]
        finally:
            slots.put(i)
    with cf.ThreadPoolExecutor(j) as ex:
        for f in cf.as_completed([ex.submit(go, n) for n in names]):
            n, out = f.result()
            print('==', n, 'quiet' if not out else '')
            for o in out:
                print('    ', o)
            sys.stdout.flush()


main()

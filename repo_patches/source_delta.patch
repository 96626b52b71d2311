From 5d8319dd443eb1c74a843e72cfe05a724f528a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:46 +0000
Subject: [PATCH 01/12] fix: Julia WLC nondimensional equilibrium distributions
 declared a C signature the library does not have

The exported C functions take (double, double, double); the ccall passed a
leading UInt8, which is undefined behaviour and gives wrong values wherever
integer and floating-point arguments share argument slots.
---
 .../wlc/thermodynamics/isometric/mod.jl       | 29 ++++---------------
 1 file changed, 6 insertions(+), 23 deletions(-)

diff --git a/src/physics/single_chain/wlc/thermodynamics/isometric/mod.jl b/src/physics/single_chain/wlc/thermodynamics/isometric/mod.jl
index fbdeef0..fd4e597 100644
--- a/src/physics/single_chain/wlc/thermodynamics/isometric/mod.jl
+++ b/src/physics/single_chain/wlc/thermodynamics/isometric/mod.jl
@@ -559,7 +559,7 @@ end
 
 """
 The nondimensional equilibrium probability density of nondimensional end-to-end vectors per link ``\\mathscr{P}_\\mathrm{eq}`` as a function of the nondimensional end-to-end length per link ``\\gamma``,
-parameterized by the number of links ``N_b`` and nondimensional persistance length ``\\zeta``,
+parameterized by the nondimensional persistance length ``\\zeta``,
 
 ```math
 \\mathscr{P}_\\mathrm{eq}(\\gamma) = \\frac{e^{-\\Delta\\vartheta(\\gamma)}}{4\\pi\\int e^{-\\Delta\\vartheta(\\gamma')} \\,{\\gamma'}{}^2 d\\gamma'}.
@@ -568,29 +568,22 @@ parameterized by the number of links ``N_b`` and nondimensional persistance leng
 $(TYPEDSIGNATURES)
 """
 function nondimensional_equilibrium_distribution(
-    number_of_links::Union{UInt8,Vector,Matrix,Array},
     nondimensional_persistance_length::Union{Float64,Vector,Matrix,Array},
     normalization_nondimensional_equilibrium_distribution::Float64,
     nondimensional_end_to_end_length_per_link::Union{Float64,Vector,Matrix,Array},
 )::Union{Float64,Vector,Matrix,Array}
     return broadcast(
-        (
-            number_of_links_i,
-            nondimensional_persistance_length_i,
-            nondimensional_end_to_end_length_per_link_i,
-        ) -> ccall(
+        (nondimensional_persistance_length_i, nondimensional_end_to_end_length_per_link_i) -> ccall(
             (
                 :physics_single_chain_wlc_thermodynamics_isometric_nondimensional_equilibrium_distribution,
                 Polymers_jll.libpolymers,
             ),
             Float64,
-            (UInt8, Float64, Float64, Float64),
-            number_of_links_i,
+            (Float64, Float64, Float64),
             nondimensional_persistance_length_i,
             normalization_nondimensional_equilibrium_distribution,
             nondimensional_end_to_end_length_per_link_i,
         ),
-        number_of_links,
         nondimensional_persistance_length,
         nondimensional_end_to_end_length_per_link,
     )
@@ -639,7 +632,7 @@ end
 
 """
 The nondimensional equilibrium probability density of nondimensional end-to-end lenghts per link ``\\mathscr{g}_\\mathrm{eq}`` as a function of the nondimensional end-to-end length per link ``\\gamma``,
-parameterized by the number of links ``N_b`` and nondimensional persistance length ``\\zeta``,
+parameterized by the nondimensional persistance length ``\\zeta``,
 
 ```math
 \\mathscr{g}_\\mathrm{eq}(\\gamma) = 4\\pi\\gamma^2 \\mathscr{P}_\\mathrm{eq}(\\gamma).
@@ -648,29 +641,22 @@ parameterized by the number of links ``N_b`` and nondimensional persistance leng
 $(TYPEDSIGNATURES)
 """
 function nondimensional_equilibrium_radial_distribution(
-    number_of_links::Union{UInt8,Vector,Matrix,Array},
     nondimensional_persistance_length::Union{Float64,Vector,Matrix,Array},
     normalization_nondimensional_equilibrium_distribution::Float64,
     nondimensional_end_to_end_length_per_link::Union{Float64,Vector,Matrix,Array},
 )::Union{Float64,Vector,Matrix,Array}
     return broadcast(
-        (
-            number_of_links_i,
-            nondimensional_persistance_length_i,
-            nondimensional_end_to_end_length_per_link_i,
-        ) -> ccall(
+        (nondimensional_persistance_length_i, nondimensional_end_to_end_length_per_link_i) -> ccall(
             (
                 :physics_single_chain_wlc_thermodynamics_isometric_nondimensional_equilibrium_radial_distribution,
                 Polymers_jll.libpolymers,
             ),
             Float64,
-            (UInt8, Float64, Float64, Float64),
-            number_of_links_i,
+            (Float64, Float64, Float64),
             nondimensional_persistance_length_i,
             normalization_nondimensional_equilibrium_distribution,
             nondimensional_end_to_end_length_per_link_i,
         ),
-        number_of_links,
         nondimensional_persistance_length,
         nondimensional_end_to_end_length_per_link,
     )
@@ -691,7 +677,6 @@ function WLC(
     normalization_nondimensional_equilibrium_distribution = integrate(
         nondimensional_end_to_end_length_per_link ->
             nondimensional_equilibrium_radial_distribution(
-                number_of_links,
                 nondimensional_persistance_length,
                 1.0,
                 nondimensional_end_to_end_length_per_link,
@@ -788,7 +773,6 @@ function WLC(
         ),
         (nondimensional_end_to_end_length_per_link) ->
             nondimensional_equilibrium_distribution(
-                number_of_links,
                 nondimensional_persistance_length,
                 normalization_nondimensional_equilibrium_distribution,
                 nondimensional_end_to_end_length_per_link,
@@ -802,7 +786,6 @@ function WLC(
         ),
         (nondimensional_end_to_end_length_per_link) ->
             nondimensional_equilibrium_radial_distribution(
-                number_of_links,
                 nondimensional_persistance_length,
                 normalization_nondimensional_equilibrium_distribution,
                 nondimensional_end_to_end_length_per_link,
-- 
2.43.0


From 26213baa3ef6c12f641d63b098b04e7be96883e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:02 +0000
Subject: [PATCH 02/12] fix: hyperelastic C exports formed slices far larger
 than the caller's arrays

from_raw_parts(ptr, NUMGRID) over *const [f64; NUMGRID] claims NUMGRID^2
numbers (NUMGRID^4 for the element) where the caller passes one array; only
the first element was used. Dereference the pointers instead.
---
 src/constitutive/hyperelastic/buche_silberstein/ex.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/constitutive/hyperelastic/buche_silberstein/ex.rs b/src/constitutive/hyperelastic/buche_silberstein/ex.rs
index 8e4b6c6..f79ece0 100644
--- a/src/constitutive/hyperelastic/buche_silberstein/ex.rs
+++ b/src/constitutive/hyperelastic/buche_silberstein/ex.rs
@@ -1,14 +1,14 @@
 #[no_mangle]
 pub unsafe extern fn constitutive_hyperelastic_buche_silberstein_uniaxial_tension(raw_element: *const [[f64; super::NUMGRID]; super::NUMGRID], factor: f64, raw_grid: *const [f64; super::NUMGRID], normalization: f64, method: u8, nondimensional_link_stiffness: f64, number_of_links: u8, stretch: f64) -> f64
 {
-    let grid = std::slice::from_raw_parts(raw_grid, super::NUMGRID)[0];
-    let element = std::slice::from_raw_parts(raw_element, super::NUMGRID * super::NUMGRID)[0];
+    let grid = *raw_grid;
+    let element = *raw_element;
     super::uniaxial_tension(&element, &factor, &grid, &normalization, &method, &nondimensional_link_stiffness, &number_of_links, &stretch)
 }
 #[no_mangle]
 pub unsafe extern fn constitutive_hyperelastic_buche_silberstein_equibiaxial_tension(raw_element: *const [[f64; super::NUMGRID]; super::NUMGRID], factor: f64, raw_grid: *const [f64; super::NUMGRID], normalization: f64, method: u8, nondimensional_link_stiffness: f64, number_of_links: u8, stretch: f64) -> f64
 {
-    let grid = std::slice::from_raw_parts(raw_grid, super::NUMGRID)[0];
-    let element = std::slice::from_raw_parts(raw_element, super::NUMGRID * super::NUMGRID)[0];
+    let grid = *raw_grid;
+    let element = *raw_element;
     super::equibiaxial_tension(&element, &factor, &grid, &normalization, &method, &nondimensional_link_stiffness, &number_of_links, &stretch)
 }
\ No newline at end of file
-- 
2.43.0


From 2f4cf92f52c34f6f85d8ea1f07bc661706a17dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:18 +0000
Subject: [PATCH 03/12] fix: EFJC isotensional extension is the derivative of
 its Gibbs free energy

The correction term of nondimensional_end_to_end_length_per_link (and its copy in the
Legendre module) lacked one error function and divided by 1 + fraction where the free
energy has ln(1/2 + fraction), so that it was not minus the derivative of the Gibbs free
energy, and not odd in the force.
---
 .../efjc/thermodynamics/isotensional/legendre/mod.rs            | 2 +-
 .../single_chain/efjc/thermodynamics/isotensional/mod.rs        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/physics/single_chain/efjc/thermodynamics/isotensional/legendre/mod.rs b/src/physics/single_chain/efjc/thermodynamics/isotensional/legendre/mod.rs
index dbf87c5..f0e0262 100644
--- a/src/physics/single_chain/efjc/thermodynamics/isotensional/legendre/mod.rs
+++ b/src/physics/single_chain/efjc/thermodynamics/isotensional/legendre/mod.rs
@@ -66,7 +66,7 @@ pub fn nondimensional_helmholtz_free_energy_per_link(link_length: &f64, hinge_ma
 {
     let denominator = 4.0*nondimensional_force.sinh()*(1.0 + nondimensional_force/nondimensional_force.tanh()/nondimensional_link_stiffness);
     let fraction = ((nondimensional_force/nondimensional_link_stiffness + 1.0)*nondimensional_force.exp()*erf(&((nondimensional_force + nondimensional_link_stiffness)/(2.0*nondimensional_link_stiffness).sqrt())) - (nondimensional_force/nondimensional_link_stiffness - 1.0)/nondimensional_force.exp()*erf(&((nondimensional_force - nondimensional_link_stiffness)/(2.0*nondimensional_link_stiffness).sqrt())))/denominator;
-    -(nondimensional_force.sinh()/nondimensional_force).ln() - 0.5*nondimensional_force.powi(2)/nondimensional_link_stiffness - (1.0 + nondimensional_force/nondimensional_force.tanh()/nondimensional_link_stiffness).ln() - (0.5 + ((nondimensional_force/nondimensional_link_stiffness + 1.0)*nondimensional_force.exp()*erf(&((nondimensional_force + nondimensional_link_stiffness)/(2.0*nondimensional_link_stiffness).sqrt())) - (nondimensional_force/nondimensional_link_stiffness - 1.0)/nondimensional_force.exp()*erf(&((nondimensional_force - nondimensional_link_stiffness)/(2.0*nondimensional_link_stiffness).sqrt())))/(4.0*nondimensional_force.sinh()*(1.0 + nondimensional_force/nondimensional_force.tanh()/nondimensional_link_stiffness))).ln() - 0.5*(2.0*PI*link_length.powi(2)/nondimensional_link_stiffness).ln() - (8.0*PI.powi(2)*hinge_mass*link_length.powi(2)*BOLTZMANN_CONSTANT*temperature/PLANCK_CONSTANT.powi(2)).ln() + nondimensional_force*(1.0/nondimensional_force.tanh() - 1.0/nondimensional_force + nondimensional_force/nondimensional_link_stiffness*(1.0 + (nondimensional_force.tanh() - 1.0/nondimensional_force.tanh() + 1.0/nondimensional_force)/(nondimensional_force.tanh() + nondimensional_force/nondimensional_link_stiffness)) + (nondimensional_force.exp()*((2.0/PI/nondimensional_link_stiffness).sqrt()*(nondimensional_force/nondimensional_link_stiffness + 1.0)*(-(nondimensional_force + nondimensional_link_stiffness).powi(2)/2.0/nondimensional_link_stiffness).exp() + (1.0 + (1.0 + nondimensional_force)/nondimensional_link_stiffness)) - 1.0/nondimensional_force.exp()*((2.0/PI/nondimensional_link_stiffness).sqrt()*(nondimensional_force/nondimensional_link_stiffness - 1.0)*(-(nondimensional_force - nondimensional_link_stiffness).powi(2)/2.0/nondimensional_link_stiffness).exp() + (1.0 + (1.0 - nondimensional_force)/nondimensional_link_stiffness)*erf(&((nondimensional_force - nondimensional_link_stiffness)/(2.0*nondimensional_link_stiffness).sqrt()))) - fraction*(4.0*(nondimensional_force.cosh()*(1.0 + (1.0 + nondimensional_force/nondimensional_force.tanh())/nondimensional_link_stiffness) - nondimensional_force/nondimensional_link_stiffness/nondimensional_force.sinh())))/denominator/(1.0 + fraction))
+    -(nondimensional_force.sinh()/nondimensional_force).ln() - 0.5*nondimensional_force.powi(2)/nondimensional_link_stiffness - (1.0 + nondimensional_force/nondimensional_force.tanh()/nondimensional_link_stiffness).ln() - (0.5 + ((nondimensional_force/nondimensional_link_stiffness + 1.0)*nondimensional_force.exp()*erf(&((nondimensional_force + nondimensional_link_stiffness)/(2.0*nondimensional_link_stiffness).sqrt())) - (nondimensional_force/nondimensional_link_stiffness - 1.0)/nondimensional_force.exp()*erf(&((nondimensional_force - nondimensional_link_stiffness)/(2.0*nondimensional_link_stiffness).sqrt())))/(4.0*nondimensional_force.sinh()*(1.0 + nondimensional_force/nondimensional_force.tanh()/nondimensional_link_stiffness))).ln() - 0.5*(2.0*PI*link_length.powi(2)/nondimensional_link_stiffness).ln() - (8.0*PI.powi(2)*hinge_mass*link_length.powi(2)*BOLTZMANN_CONSTANT*temperature/PLANCK_CONSTANT.powi(2)).ln() + nondimensional_force*(1.0/nondimensional_force.tanh() - 1.0/nondimensional_force + nondimensional_force/nondimensional_link_stiffness*(1.0 + (nondimensional_force.tanh() - 1.0/nondimensional_force.tanh() + 1.0/nondimensional_force)/(nondimensional_force.tanh() + nondimensional_force/nondimensional_link_stiffness)) + (nondimensional_force.exp()*((2.0/PI/nondimensional_link_stiffness).sqrt()*(nondimensional_force/nondimensional_link_stiffness + 1.0)*(-(nondimensional_force + nondimensional_link_stiffness).powi(2)/2.0/nondimensional_link_stiffness).exp() + (1.0 + (1.0 + nondimensional_force)/nondimensional_link_stiffness)*erf(&((nondimensional_force + nondimensional_link_stiffness)/(2.0*nondimensional_link_stiffness).sqrt()))) - 1.0/nondimensional_force.exp()*((2.0/PI/nondimensional_link_stiffness).sqrt()*(nondimensional_force/nondimensional_link_stiffness - 1.0)*(-(nondimensional_force - nondimensional_link_stiffness).powi(2)/2.0/nondimensional_link_stiffness).exp() + (1.0 + (1.0 - nondimensional_force)/nondimensional_link_stiffness)*erf(&((nondimensional_force - nondimensional_link_stiffness)/(2.0*nondimensional_link_stiffness).sqrt()))) - fraction*(4.0*(nondimensional_force.cosh()*(1.0 + (1.0 + nondimensional_force/nondimensional_force.tanh())/nondimensional_link_stiffness) - nondimensional_force/nondimensional_link_stiffness/nondimensional_force.sinh())))/denominator/(0.5 + fraction))
 }
 
 /// The nondimensional relative Helmholtz free energy as a function of the applied nondimensional force, parameterized by the number of links and nondimensional link stiffness.
diff --git a/src/physics/single_chain/efjc/thermodynamics/isotensional/mod.rs b/src/physics/single_chain/efjc/thermodynamics/isotensional/mod.rs
index 80cbc73..96c1a13 100644
--- a/src/physics/single_chain/efjc/thermodynamics/isotensional/mod.rs
+++ b/src/physics/single_chain/efjc/thermodynamics/isotensional/mod.rs
@@ -66,7 +66,7 @@ pub fn nondimensional_end_to_end_length_per_link(nondimensional_link_stiffness:
 {
     let denominator = 4.0*nondimensional_force.sinh()*(1.0 + nondimensional_force/nondimensional_force.tanh()/nondimensional_link_stiffness);
     let fraction = ((nondimensional_force/nondimensional_link_stiffness + 1.0)*nondimensional_force.exp()*erf(&((nondimensional_force + nondimensional_link_stiffness)/(2.0*nondimensional_link_stiffness).sqrt())) - (nondimensional_force/nondimensional_link_stiffness - 1.0)/nondimensional_force.exp()*erf(&((nondimensional_force - nondimensional_link_stiffness)/(2.0*nondimensional_link_stiffness).sqrt())))/denominator;
-    1.0/nondimensional_force.tanh() - 1.0/nondimensional_force + nondimensional_force/(nondimensional_link_stiffness)*(1.0 + (nondimensional_force.tanh() - 1.0/nondimensional_force.tanh() + 1.0/nondimensional_force)/(nondimensional_force.tanh() + nondimensional_force/(nondimensional_link_stiffness))) + (nondimensional_force.exp()*((2.0/PI/nondimensional_link_stiffness).sqrt()*(nondimensional_force/nondimensional_link_stiffness + 1.0)*(-(nondimensional_force + nondimensional_link_stiffness).powi(2)/2.0/nondimensional_link_stiffness).exp() + (1.0 + (1.0 + nondimensional_force)/nondimensional_link_stiffness)) - 1.0/nondimensional_force.exp()*((2.0/PI/nondimensional_link_stiffness).sqrt()*(nondimensional_force/nondimensional_link_stiffness - 1.0)*(-(nondimensional_force - nondimensional_link_stiffness).powi(2)/2.0/nondimensional_link_stiffness).exp() + (1.0 + (1.0 - nondimensional_force)/nondimensional_link_stiffness)*erf(&((nondimensional_force - nondimensional_link_stiffness)/(2.0*nondimensional_link_stiffness).sqrt()))) - fraction*(4.0*(nondimensional_force.cosh()*(1.0 + (1.0 + nondimensional_force/nondimensional_force.tanh())/nondimensional_link_stiffness) - nondimensional_force/nondimensional_link_stiffness/nondimensional_force.sinh())))/denominator/(1.0 + fraction)
+    1.0/nondimensional_force.tanh() - 1.0/nondimensional_force + nondimensional_force/(nondimensional_link_stiffness)*(1.0 + (nondimensional_force.tanh() - 1.0/nondimensional_force.tanh() + 1.0/nondimensional_force)/(nondimensional_force.tanh() + nondimensional_force/(nondimensional_link_stiffness))) + (nondimensional_force.exp()*((2.0/PI/nondimensional_link_stiffness).sqrt()*(nondimensional_force/nondimensional_link_stiffness + 1.0)*(-(nondimensional_force + nondimensional_link_stiffness).powi(2)/2.0/nondimensional_link_stiffness).exp() + (1.0 + (1.0 + nondimensional_force)/nondimensional_link_stiffness)*erf(&((nondimensional_force + nondimensional_link_stiffness)/(2.0*nondimensional_link_stiffness).sqrt()))) - 1.0/nondimensional_force.exp()*((2.0/PI/nondimensional_link_stiffness).sqrt()*(nondimensional_force/nondimensional_link_stiffness - 1.0)*(-(nondimensional_force - nondimensional_link_stiffness).powi(2)/2.0/nondimensional_link_stiffness).exp() + (1.0 + (1.0 - nondimensional_force)/nondimensional_link_stiffness)*erf(&((nondimensional_force - nondimensional_link_stiffness)/(2.0*nondimensional_link_stiffness).sqrt()))) - fraction*(4.0*(nondimensional_force.cosh()*(1.0 + (1.0 + nondimensional_force/nondimensional_force.tanh())/nondimensional_link_stiffness) - nondimensional_force/nondimensional_link_stiffness/nondimensional_force.sinh())))/denominator/(0.5 + fraction)
 }
 
 /// The Gibbs free energy as a function of the applied force and temperature, parameterized by the number of links, link length, hinge mass, and link stiffness.
-- 
2.43.0


From f6964d0b7fb28f4c576ec521cee0389b20248081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:49 +0000
Subject: [PATCH 04/12] fix: FJC isometric sums underflow at or beyond full
 extension

---
 src/physics/single_chain/fjc/thermodynamics/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/physics/single_chain/fjc/thermodynamics/mod.rs b/src/physics/single_chain/fjc/thermodynamics/mod.rs
index 6b1cb99..755b96e 100644
--- a/src/physics/single_chain/fjc/thermodynamics/mod.rs
+++ b/src/physics/single_chain/fjc/thermodynamics/mod.rs
@@ -61,7 +61,7 @@ fn treloar_sums(number_of_links: &u8, nondimensional_end_to_end_length_per_link:
     let p: i32 = (number_of_links - 2).into();
     let m = -*nondimensional_end_to_end_length_per_link*0.5 + 0.5;
     let k = (number_of_links_f64*m).ceil() as u128;
-    orders.iter().map(|order| (0..=k-1).collect::<Vec::<u128>>().iter().map(|s| (-1.0_f64).powf(*s as f64)*(((1..=n).product::<u128>()/(1..=*s).product::<u128>()/(1..=n-s).product::<u128>()) as f64)*(m - (*s as f64)/number_of_links_f64).powi(p - order)).sum()).collect()
+    orders.iter().map(|order| (0..k).collect::<Vec::<u128>>().iter().map(|s| (-1.0_f64).powf(*s as f64)*(((1..=n).product::<u128>()/(1..=*s).product::<u128>()/(1..=n-s).product::<u128>()) as f64)*(m - (*s as f64)/number_of_links_f64).powi(p - order)).sum()).collect()
 }
 
 fn treloar_sum_0_with_prefactor(number_of_links: &u8, nondimensional_end_to_end_length_per_link: &f64) -> f64
@@ -71,5 +71,5 @@ fn treloar_sum_0_with_prefactor(number_of_links: &u8, nondimensional_end_to_end_
     let p: i32 = (number_of_links - 2).into();
     let m = -*nondimensional_end_to_end_length_per_link*0.5 + 0.5;
     let k = (number_of_links_f64*m).ceil() as u128;
-    0.125/PI/nondimensional_end_to_end_length_per_link*(n.pow(n as u32) as f64)/((1..=n-2).product::<u128>() as f64)*(0..=k-1).collect::<Vec::<u128>>().iter().map(|s| (-1.0_f64).powf(*s as f64)*(((1..=n).product::<u128>()/(1..=*s).product::<u128>()/(1..=n-s).product::<u128>()) as f64)*(m - (*s as f64)/number_of_links_f64).powi(p)).sum::<f64>()
+    0.125/PI/nondimensional_end_to_end_length_per_link*(n.pow(n as u32) as f64)/((1..=n-2).product::<u128>() as f64)*(0..k).collect::<Vec::<u128>>().iter().map(|s| (-1.0_f64).powf(*s as f64)*(((1..=n).product::<u128>()/(1..=*s).product::<u128>()/(1..=n-s).product::<u128>()) as f64)*(m - (*s as f64)/number_of_links_f64).powi(p)).sum::<f64>()
 }
\ No newline at end of file
-- 
2.43.0


From 25b76ed99c43017865c7a7da0c7c66289e0a787f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:36 +0000
Subject: [PATCH 05/12] fix: powered Newton iteration returned NaN once an
 iterate solved the equation exactly

---
 src/math/mod.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/math/mod.rs b/src/math/mod.rs
index 0b66ce9..80ea3de 100644
--- a/src/math/mod.rs
+++ b/src/math/mod.rs
@@ -2,14 +2,12 @@ pub fn inverse_newton_raphson_powered(y: &f64, f: &dyn Fn(&f64) -> f64, fp: &dyn
 {
     let mut x = *guess;
     let mut f_adj: f64;
-    let mut y_minus_f: f64;
     let mut iters = 0;
     let mut residual_rel = 1.0;
     while residual_rel > rel_tol && &iters < max_iters
     {
         f_adj = f(&x) - y;
-        y_minus_f = -f_adj.powi(power);
-        x += y_minus_f/f_adj.powi(power - 1)/fp(&x)/(power as f64);
+        x -= f_adj/fp(&x)/(power as f64);
         iters += 1;
         residual_rel = (f_adj/y).abs();
     }
-- 
2.43.0


From 0535595ccaa3aa3950a0829c219958ba0f5d739d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:36 +0000
Subject: [PATCH 06/12] fix: erfc was NaN or zero instead of two below -26.6,
 where exp(x^2) overflows

---
 src/math/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/math/mod.rs b/src/math/mod.rs
index 80ea3de..4a7e8df 100644
--- a/src/math/mod.rs
+++ b/src/math/mod.rs
@@ -248,7 +248,14 @@ pub fn erf(x: &f64) -> f64
 
 pub fn erfc(x: &f64) -> f64
 {
-    erfcx(x)/(x.powi(2)).exp()
+    if x < &-6.1
+    {
+        2.0
+    }
+    else
+    {
+        erfcx(x)/(x.powi(2)).exp()
+    }
 }
 
 pub fn erfcx(x: &f64) -> f64
-- 
2.43.0


From 59955c21a341b3fe94b3f2adad218ceed8294a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:36 +0000
Subject: [PATCH 07/12] fix: modified Bessel functions used the small-argument
 polynomial for large negative arguments

---
 src/math/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/mod.rs b/src/math/mod.rs
index 4a7e8df..67514fc 100644
--- a/src/math/mod.rs
+++ b/src/math/mod.rs
@@ -94,11 +94,11 @@ pub fn bessel_i(nu: &u8, x: &f64) -> f64
 {
     if nu == &0
     {
-        bessel_i0(x)
+        bessel_i0(&x.abs())
     }
     else if nu == &1
     {
-        bessel_i1(x)
+        bessel_i1(&x.abs())*x.signum()
     }
     else
     {
-- 
2.43.0


From b5f91bb8e15063eb8e1fca7ef70bc6a1209661d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:36 +0000
Subject: [PATCH 08/12] fix: inverse_langevin returned the linear form 3y for
 all negative arguments

---
 src/math/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/math/mod.rs b/src/math/mod.rs
index 67514fc..e52a957 100644
--- a/src/math/mod.rs
+++ b/src/math/mod.rs
@@ -32,13 +32,14 @@ pub fn inverse_newton_raphson(y: &f64, f: &dyn Fn(&f64) -> f64, fp: &dyn Fn(&f64
 
 pub fn inverse_langevin(y: &f64) -> f64
 {
-    if y <= &1e-3
+    if y.abs() <= 1e-3
     {
         3.0*y
     }
     else
     {
-        inverse_newton_raphson(y, &|x: &f64| 1.0/x.tanh() - 1.0/x, &|x: &f64| 1.0/x.powi(2) - 1.0/x.sinh().powi(2), &((2.14234*y.powi(3) - 4.22785*y.powi(2) + 3.0*y)/(1.0 - y)/(0.71716*y.powi(3) - 0.41103*y.powi(2) - 0.39165*y + 1.0)), &1e-6, &100)
+        let y_abs = y.abs();
+        y.signum()*inverse_newton_raphson(&y_abs, &|x: &f64| 1.0/x.tanh() - 1.0/x, &|x: &f64| 1.0/x.powi(2) - 1.0/x.sinh().powi(2), &((2.14234*y_abs.powi(3) - 4.22785*y_abs.powi(2) + 3.0*y_abs)/(1.0 - y_abs)/(0.71716*y_abs.powi(3) - 0.41103*y_abs.powi(2) - 0.39165*y_abs + 1.0)), &1e-6, &100)
     }
 }
 
-- 
2.43.0


From f090226a8fec2cb35eb53daaf950958620c320b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:44 +0000
Subject: [PATCH 09/12] fix: apply the swelling ratio to the distribution of
 method 2 in the damage model

Method 3 evaluates the equilibrium distribution at the extension divided by
the cube root of the swelling ratio; method 2 did not, so the total probability
at rest was the reciprocal of the swelling ratio instead of one.
---
 src/constitutive/hyperelastic_damage/buche_silberstein/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/constitutive/hyperelastic_damage/buche_silberstein/mod.rs b/src/constitutive/hyperelastic_damage/buche_silberstein/mod.rs
index 89682db..1a21557 100644
--- a/src/constitutive/hyperelastic_damage/buche_silberstein/mod.rs
+++ b/src/constitutive/hyperelastic_damage/buche_silberstein/mod.rs
@@ -91,7 +91,7 @@ pub fn uniaxial_tension(element: &[[f64; NUMGRID]], factor: &f64, grid: &[f64],
             cauchy_stress = element.iter().zip(grid.iter()).flat_map(|(element_i, z_i)|
                 element_i.iter().zip(grid.iter()).map(|(element_ij, r_j)|
                     element_ij / nondimensional_relative_helmholtz_free_energy(
-                        number_of_links, nondimensional_link_stiffness, &((*z_i / stretch).powi(2) + stretch * r_j.powi(2)).sqrt()
+                        number_of_links, nondimensional_link_stiffness, &(((*z_i / stretch).powi(2) + stretch * r_j.powi(2)).sqrt() / j_1_3)
                     ).exp() * ((
                         ((*z_i * maximum_previous_stretch / stretch).powi(2) + stretch / maximum_previous_stretch * r_j.powi(2)).sqrt()
                         <= *nondimensional_critical_extension
@@ -101,7 +101,7 @@ pub fn uniaxial_tension(element: &[[f64; NUMGRID]], factor: &f64, grid: &[f64],
             total_probability = grid.iter().flat_map(|z_i|
                 grid.iter().map(|r_j|
                     r_j / nondimensional_relative_helmholtz_free_energy(
-                        number_of_links, nondimensional_link_stiffness, &((*z_i / stretch).powi(2) + stretch * r_j.powi(2)).sqrt()
+                        number_of_links, nondimensional_link_stiffness, &(((*z_i / stretch).powi(2) + stretch * r_j.powi(2)).sqrt() / j_1_3)
                     ).exp() * ((
                         ((*z_i * maximum_previous_stretch / stretch).powi(2) + stretch / maximum_previous_stretch * r_j.powi(2)).sqrt()
                         <= *nondimensional_critical_extension
-- 
2.43.0


From 7dde8ae74fc4bc6ef84332f13d78c257b4bb7461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:02 +0000
Subject: [PATCH 10/12] fix: largest extension of freely rotating chains with
 an odd number of links

The planar zigzag of an odd number of links is longer per link than cos(theta/2);
the Monte Carlo histogram panicked on such samples (always, for one link).
---
 .../frc/thermodynamics/isometric/monte_carlo/mod.rs         | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/physics/single_chain/frc/thermodynamics/isometric/monte_carlo/mod.rs b/src/physics/single_chain/frc/thermodynamics/isometric/monte_carlo/mod.rs
index edf1dad..b00f807 100644
--- a/src/physics/single_chain/frc/thermodynamics/isometric/monte_carlo/mod.rs
+++ b/src/physics/single_chain/frc/thermodynamics/isometric/monte_carlo/mod.rs
@@ -57,7 +57,11 @@ pub fn nondimensional_equilibrium_radial_distribution<const NUMBER_OF_BINS: usiz
 {
     let mut rng = rand::thread_rng();
     let number_of_links_f64 = NUMBER_OF_LINKS as f64;
-    let gamma_max = (2.0 - 2.0*(PI - theta).cos()).sqrt()/2.0;
+    let gamma_max = if NUMBER_OF_LINKS % 2 == 0 {
+        (2.0 - 2.0*(PI - theta).cos()).sqrt()/2.0
+    } else {
+        ((number_of_links_f64.powi(2) + 1.0 + (number_of_links_f64.powi(2) - 1.0)*theta.cos())/2.0).sqrt()/number_of_links_f64
+    };
     let mut bin_edges = [0.0_f64; NUMBER_OF_BINS];
     bin_edges.iter_mut().enumerate().for_each(|(bin_index, bin_edge)|
         *bin_edge = gamma_max * (bin_index as f64 + 1.0)/(NUMBER_OF_BINS as f64)
-- 
2.43.0


From 2d2b3dfeb75f74d3f08c6046f6cdf1a496e29f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:39 +0000
Subject: [PATCH 11/12] fix: saddle-point form of the WLC isotensional
 partition function above a nondimensional force of 100

The Laplace approximation took the second derivative of the force (the
third of the free energy) for the curvature at the saddle, and a wrong
constant in front; the Gibbs free energy jumped by more than kT there.
---
 .../single_chain/wlc/thermodynamics/isotensional/mod.rs        | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/physics/single_chain/wlc/thermodynamics/isotensional/mod.rs b/src/physics/single_chain/wlc/thermodynamics/isotensional/mod.rs
index 023ca74..3440556 100644
--- a/src/physics/single_chain/wlc/thermodynamics/isotensional/mod.rs
+++ b/src/physics/single_chain/wlc/thermodynamics/isotensional/mod.rs
@@ -126,7 +126,6 @@ pub fn nondimensional_gibbs_free_energy(number_of_links: &u8, link_length: &f64,
 {
     let f = &|nondimensional_end_to_end_length_per_link: &f64| isometric_nondimensional_force(number_of_links, nondimensional_persistance_length, nondimensional_end_to_end_length_per_link);
     let fp = &|nondimensional_end_to_end_length_per_link: &f64| (isometric_nondimensional_force(number_of_links, nondimensional_persistance_length, &(nondimensional_end_to_end_length_per_link + 1e-8)) - isometric_nondimensional_force(number_of_links, nondimensional_persistance_length, &(nondimensional_end_to_end_length_per_link - 1e-8)))/2e-8;
-    let fpp = &|x: &f64| (fp(&(x + 1e-8)) - fp(&(x - 1e-8)))/2e-8;
     let gamma_hat = inverse_newton_raphson_powered(nondimensional_force, f, fp, &0.9999, &1e-5, &100, 2);
     if !(0.0..=1.0).contains(&gamma_hat)
     {
@@ -135,7 +134,7 @@ pub fn nondimensional_gibbs_free_energy(number_of_links: &u8, link_length: &f64,
     let scale = (*number_of_links as f64)*nondimensional_force*gamma_hat - isometric_nondimensional_helmholtz_free_energy(number_of_links, link_length, hinge_mass, nondimensional_persistance_length, &gamma_hat, temperature);
     let log_integral = if nondimensional_force > &100.0
     {
-        -((8.0*PI.powi(2)/fpp(&gamma_hat)).sqrt()).ln() - (0.5*(*number_of_links as f64)*gamma_hat/nondimensional_force).ln()
+        -(4.0*PI*(2.0*PI/(*number_of_links as f64)/fp(&gamma_hat)).sqrt()).ln() - (0.5*(*number_of_links as f64)*gamma_hat/nondimensional_force).ln()
     }
     else
     {
-- 
2.43.0


From dc4bcca310cad8d9746e238445f6a40b4eb848fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:29 +0000
Subject: [PATCH 12/12] fix: lambert_w takes enough iterations to converge next
 to its branch point

Four iterations leave relative errors of 7e-4 at x = -0.3678 and 9e-3 at
x = -0.367879 (just above -1/e), and of 1e-9 near x = 1e12.
---
 src/math/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/mod.rs b/src/math/mod.rs
index e52a957..ec02b47 100644
--- a/src/math/mod.rs
+++ b/src/math/mod.rs
@@ -82,7 +82,7 @@ pub fn integrate_2d_symmetric_grid(f: &dyn Fn(&f64, &f64) -> f64, grid: &[f64],
 
 pub fn lambert_w(x: &f64) -> f64
 {
-    let amount_of_iterations = ((x.log10()/3.0).ceil() as u8).max(4_u8);
+    let amount_of_iterations = ((x.log10()/3.0).ceil() as u8).max(16_u8);
     let mut w = 0.75*(x + 1.0).ln();
     for _ in 0..amount_of_iterations
     {
-- 
2.43.0


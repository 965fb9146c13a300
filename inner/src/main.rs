//! Properties of the private building blocks, through the hooks of /repo (cfg verif_*).
mod segs;
#[cfg(verif_cross)]
mod crossing;
#[cfg(verif_grid)]
mod grid;
#[cfg(verif_near)]
mod near;
#[cfg(verif_order)]
mod order;

fn main() {
    #[allow(unused_mut)]
    let (mut c17, mut c18): (Vec<kit::Component>, Vec<kit::Component>) = (vec![], vec![]);
    #[cfg(verif_cross)]
    c17.extend(crossing::components());
    #[cfg(verif_grid)]
    c18.extend(grid::components());
    #[cfg(verif_near)]
    c18.extend(near::components());
    #[cfg(verif_order)]
    c18.extend(order::components());
    kit::main(vec![kit::Property { id: "C17", components: c17 }, kit::Property { id: "C18", components: c18 }])
}

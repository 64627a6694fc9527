mod boundary;
mod collect;
mod flow;
pub mod history;
pub mod nest;
mod reading;
mod tables;
pub mod validation;
mod values;
mod workflow;
use refmodel::engine::Ctx;

pub fn run(p: &str, thorough: bool) -> Option<i32> {
    let ctx = Ctx::new(p, thorough);
    let a: Vec<&str> = match p {
        "C10" => reading::c10(&ctx),
        "C11" => reading::c11(&ctx),
        "C12" => reading::c12(&ctx),
        "C14" => boundary::c14(&ctx),
        "C15" => boundary::c15(&ctx),
        "C16" => flow::c16(&ctx),
        "C17" => workflow::c17(&ctx),
        "C18" => workflow::c18(&ctx),
        "C19" => workflow::c19(&ctx),
        "C20" => history::c20(&ctx),
        "C21" => collect::c21(&ctx),
        "C22" => workflow::c22(&ctx),
        "C13" => tables::c13(&ctx),
        "C01" => values::c01(&ctx),
        "C02" => values::c02(&ctx),
        "C03" => values::c03(&ctx),
        "C04" => values::c04(&ctx),
        "C05" => values::c05(&ctx),
        "C06" => validation::c06(&ctx),
        "C07" => validation::c07(&ctx),
        "C08" => validation::c08(&ctx),
        "C09" => validation::c09(&ctx),
        _ => return None,
    };
    Some(ctx.finish(&a))
}

mod fa;
mod gen;
mod product;
mod re;
mod scale;
mod stages;
mod checks;

fn main() {
  eng::main(&checks::all());
}

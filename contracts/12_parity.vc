@mod parity
pub open spec fn par(n: int) -> Parity { if n % 2 == 0 { Parity::Even } else { Parity::Odd } }
impl vstd::std_specs::ops::MulSpecImpl for Parity {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, r: Parity) -> bool { true }
    open spec fn mul_spec(self, r: Parity) -> Parity { if self == r { Parity::Even } else { Parity::Odd } }
}
@fn parity::Parity::from_is_odd
    ensures res == (if v { Parity::Odd } else { Parity::Even })
@fn parity::Parity::from_number
    ensures res == par(v as int)
@fn parity::Parity::zero_or_one
    ensures res == (if self == Parity::Odd { 1u8 } else { 0u8 })
@fn parity::Parity::plus_or_minus
    ensures res == (if self == Parity::Odd { '-' } else { '+' })
@fn parity::<Parity as Mul>::mul

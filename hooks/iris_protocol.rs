// private items of the matcher that obligations look at (layer B)
#[cfg(vp_layer_b)]
pub fn cmp_diff<T: super::Sharable, A: super::ShareTrait + num_traits::Zero, B: super::ShareTrait, M: super::MpcTrait<T, A, B>>(p: &super::IrisProtocol<T, A, B, M>, hwd: A, ones: usize) -> A
where
    <T as std::convert::TryFrom<usize>>::Error: std::fmt::Debug,
{
    p.get_cmp_diff(hwd, ones)
}

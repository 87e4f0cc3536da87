// Stand-in: the repository only imports the name `Transfer` (unused).
#![no_std]
pub mod instructions {
    use pinocchio::{account_info::AccountInfo, ProgramResult, instruction::Signer};
    pub struct Transfer<'a> { pub from: &'a AccountInfo, pub to: &'a AccountInfo, pub authority: &'a AccountInfo, pub amount: u64 }
    impl<'a> Transfer<'a> {
        pub fn invoke(&self) -> ProgramResult { self.invoke_signed(&[]) }
        #[inline(never)]
        pub fn invoke_signed(&self, _s: &[Signer]) -> ProgramResult { Ok(()) }
    }
}

//! The library side of the wrap program behind an entrypoint, so that the symbolic executor can
//! run it. The first byte of the instruction data picks a function; results come back as return
//! data.
use {
    solana_account_info::AccountInfo,
    solana_cpi::set_return_data,
    solana_instruction::Instruction,
    solana_program_error::{ProgramError, ProgramResult},
    solana_pubkey::Pubkey,
    spl_token_wrap::{
        instruction::{self as ix, TokenWrapInstruction as Ix},
        mint_customizer::{
            compliance::ComplianceMintCustomizer, default_token_2022::DefaultToken2022Customizer,
            no_extensions::NoExtensionCustomizer,
        },
        processor::process_create_mint,
    },
};

solana_program_entrypoint::entrypoint!(process);

const BAD: ProgramError = ProgramError::Custom(0xbad);

struct In<'a>(&'a [u8]);
impl<'a> In<'a> {
    fn u8(&mut self) -> Result<u8, ProgramError> {
        let (h, t) = self.0.split_first().ok_or(BAD)?;
        self.0 = t;
        Ok(*h)
    }
    fn key(&mut self) -> Result<Pubkey, ProgramError> {
        if self.0.len() < 32 {
            return Err(BAD);
        }
        let (h, t) = self.0.split_at(32);
        self.0 = t;
        Ok(Pubkey::new_from_array(h.try_into().unwrap()))
    }
    fn u64(&mut self) -> Result<u64, ProgramError> {
        if self.0.len() < 8 {
            return Err(BAD);
        }
        let (h, t) = self.0.split_at(8);
        self.0 = t;
        Ok(u64::from_le_bytes(h.try_into().unwrap()))
    }
    fn keys<const N: usize>(&mut self) -> Result<[Pubkey; N], ProgramError> {
        let mut k = [Pubkey::default(); N];
        for x in k.iter_mut() {
            *x = self.key()?;
        }
        Ok(k)
    }
}

fn codec(data: &[u8]) -> ProgramResult {
    let i = Ix::unpack(data)?;
    let mut out = vec![];
    match &i {
        Ix::CreateMint { idempotent } => out.extend([0, *idempotent as u8]),
        Ix::Wrap { amount } => {
            out.push(1);
            out.extend(amount.to_le_bytes());
        }
        Ix::Unwrap { amount } => {
            out.push(2);
            out.extend(amount.to_le_bytes());
        }
        Ix::CloseStuckEscrow => out.push(3),
        Ix::SyncMetadataToToken2022 => out.push(4),
        Ix::SyncMetadataToSplToken => out.push(5),
        Ix::SetCanonicalPointer { program_id } => {
            out.push(6);
            out.extend(program_id.as_ref());
        }
    }
    out.extend(i.pack());
    set_return_data(&out);
    Ok(())
}

fn builder(mut d: In) -> Result<Instruction, ProgramError> {
    let which = d.u8()?;
    // signers, or optional accounts
    let n = d.u8()?;
    let i = match which {
        0 => {
            let [p, wm, bp, um, wp] = d.keys()?;
            ix::create_mint(&p, &wm, &bp, &um, &wp, n == 1)
        }
        1 | 2 => {
            let [p, a, b, c, e, f, g, h, i, j] = d.keys()?;
            let mut s = vec![];
            for _ in 0..n {
                s.push(d.key()?);
            }
            let r: Vec<&Pubkey> = s.iter().collect();
            let amount = d.u64()?;
            if which == 1 {
                ix::wrap(&p, &a, &b, &c, &e, &f, &g, &h, &i, &j, &r, amount)
            } else {
                ix::unwrap(&p, &a, &b, &c, &e, &f, &g, &h, &i, &j, &r, amount)
            }
        }
        3 => {
            let [p, a, b, c, e, f] = d.keys()?;
            ix::close_stuck_escrow(&p, &a, &b, &c, &e, &f)
        }
        4 => {
            let [p, a, b, c, s, o] = d.keys()?;
            ix::sync_metadata_to_token_2022(&p, &a, &b, &c, (n & 1 != 0).then_some(&s), (n & 2 != 0).then_some(&o))
        }
        5 => {
            let [p, a, b, c, e, s, o] = d.keys()?;
            ix::sync_metadata_to_spl_token(&p, &a, &b, &c, &e, (n & 1 != 0).then_some(&s), (n & 2 != 0).then_some(&o))
        }
        6 => {
            let [p, a, b, c, e] = d.keys()?;
            ix::set_canonical_pointer(&p, &a, &b, &c, &e)
        }
        _ => return Err(BAD),
    };
    Ok(i)
}

fn address(mut d: In) -> Result<Pubkey, ProgramError> {
    use spl_token_wrap::*;
    let which = d.u8()?;
    let [a, b, c, p] = d.keys()?;
    Ok(match which {
        0 => get_wrapped_mint_address(&a, &b),
        1 => get_wrapped_mint_authority(&a),
        2 => get_wrapped_mint_backpointer_address(&a),
        3 => get_escrow_address(&a, &b, &c),
        4 => get_canonical_pointer_address(&a),
        10 => get_wrapped_mint_address_for_program(&a, &b, &p),
        11 => get_wrapped_mint_authority_for_program(&a, &p),
        12 => get_wrapped_mint_backpointer_address_for_program(&a, &p),
        13 => get_escrow_address_for_program(&a, &b, &c, &p),
        14 => get_canonical_pointer_address_for_program(&a, &p),
        _ => return Err(BAD),
    })
}

fn process(program_id: &Pubkey, accounts: &[AccountInfo], data: &[u8]) -> ProgramResult {
    let mut d = In(data);
    match d.u8()? {
        0 => codec(d.0),
        1 => {
            let i = builder(d)?;
            let mut out = i.program_id.to_bytes().to_vec();
            out.push(i.accounts.len() as u8);
            for m in &i.accounts {
                out.extend(m.pubkey.as_ref());
                out.extend([m.is_signer as u8, m.is_writable as u8]);
            }
            out.extend(&i.data);
            set_return_data(&out);
            Ok(())
        }
        2 => {
            let k = address(d)?;
            set_return_data(k.as_ref());
            Ok(())
        }
        3 => process_create_mint::<ComplianceMintCustomizer>(program_id, accounts, d.u8()? == 1),
        4 => process_create_mint::<NoExtensionCustomizer>(program_id, accounts, d.u8()? == 1),
        5 => process_create_mint::<DefaultToken2022Customizer>(program_id, accounts, d.u8()? == 1),
        _ => Err(BAD),
    }
}

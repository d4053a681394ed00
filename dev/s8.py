PRE = 'use crate::msg::*;\nuse crate::types::*;\nuse cosmwasm_std::*;\nuse cosmwasm_std::testing::*;\n'
S = {
'recipient-kept-for-admin': dict(prop='U05', needs='the admin naming his own address as recipient of the fees',
  breaks='the change is accepted and reported, but the fees keep going to the old recipient',
  edits=[('auth.rs', '''    MAKER_FEE_RECIPIENT.save(deps.storage, &addr)?;
''', '''    // Fees fall to the admin anyway while nobody else is named
    if addr != info.sender {
        MAKER_FEE_RECIPIENT.save(deps.storage, &addr)?;
    }
''')],
  demo='''
#[test]
fn recipient_is_stored() {
    let mut c = Chain::new();
    for who in ["somebody", ADMIN, FEES, ADMIN] {
        crate::contract::execute(c.deps.as_mut(), mock_env(), mock_info(ADMIN, &[]),
            ExecuteMsg::Auth(AuthExecuteMsg::SetMakerFeeRecipient { recipient: Addr::unchecked(who) })).unwrap();
        assert_eq!(crate::state::MAKER_FEE_RECIPIENT.load(&c.deps.storage).unwrap(), who);
    }
}
'''),
}

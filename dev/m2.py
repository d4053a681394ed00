M = [
('u-admin-eq','U01','auth.rs','    ensure!(\n        admin == Some(sender.clone()),','    ensure!(\n        admin.is_none() || admin == Some(sender.clone()),'),
('u-cancel-anyone','U01','auth.rs','    ensure_is_admin(deps.as_ref(), &info.sender)?;\n\n    remove_admin_transfer','    remove_admin_transfer'),
('u-fee-mod','U01','auth.rs','    ensure_is_admin(deps.as_ref(), &info.sender)?;\n\n    let maker_fee','    ensure_is_admin_or_moderator(deps.as_ref(), &info.sender)?;\n\n    let maker_fee'),
('u-setactive-offer','U02','auth.rs','moderator == Some(sender.clone()) || admin == Some(sender.clone())','moderator == Some(sender.clone()) || admin == Some(sender.clone()) || MODERATOR_OFFER.may_load(deps.storage)? == Some(sender.clone())'),
('u-claim-offer-kept','U03','auth.rs','    update_moderator(deps.storage, deps.api, info.sender)?;\n    remove_moderator_offer(deps.storage)?;','    update_moderator(deps.storage, deps.api, info.sender)?;'),
('u-offer-novalid','U08,U01','auth.rs','    api.addr_validate(new_mod.as_str())?;\n',''),
('u-sudo-novalid','U08','auth.rs','    api.addr_validate(new_admin.as_str())?;\n    ADMIN.save','    ADMIN.save'),
('u-fee-cap','U07','orderbook.rs','maker_fee <= MAX','maker_fee < MAX'),
('u-paused-cancel','U06','contract.rs','if !matches!(msg, ExecuteMsg::Auth(_)) {','if !matches!(msg, ExecuteMsg::Auth(_) | ExecuteMsg::CancelLimit { .. }) {'),
('u-default-off','U06','sudo.rs','.unwrap_or(true)','.unwrap_or(false)'),
('u-renounce-mod','U05','auth.rs','pub(crate) fn remove_admin(storage: &mut dyn Storage) -> ContractResult<()> {','pub(crate) fn remove_admin(storage: &mut dyn Storage) -> ContractResult<()> {\n    MODERATOR.remove(storage);'),
('a-liq-missing','A01','order.rs','    subtract_directional_liquidity(','    if false { return Err(ContractError::Unauthorized {}); }\n    subtract_directional_liquidity('),
('a-sync-last','A03','tick.rs','last_tick_sync_etas = ','last_tick_sync_etas = cumulative_realized_cancels; let _x = '),
('a-sync-guard','A02,A03','tick.rs','cumulative_total_value >=','cumulative_total_value <='),
('a-ptr-bid','A06','order.rs','if tick_id > orderbook.next_bid_tick','if tick_id < orderbook.next_bid_tick'),
('refactor-helper','','auth.rs','''    let offer = ADMIN_OFFER.may_load(deps.storage)?;
    ensure!(
        Some(info.sender.clone()) == offer,
        ContractError::Unauthorized {}
    );
''','''    match get_admin_offer(deps.storage)? {
        Some(o) if o == info.sender => {}
        _ => return Err(ContractError::Unauthorized {}),
    }
'''),
('refactor-order','','auth.rs','    update_admin(deps.storage, deps.api, info.sender)?;\n    remove_admin_transfer(deps.storage)?;','    remove_admin_transfer(deps.storage)?;\n    update_admin(deps.storage, deps.api, info.sender)?;'),
]

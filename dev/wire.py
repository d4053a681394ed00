import rules_interface as ri, json
w=ri.wire(A)
w={t:w[t] for t in sorted(w) if t not in ('MarketOrder','Coin256','MsgSend256','MakerFee')}
json.dump(w,open('/verif/sa/wire.json','w'),indent=1,sort_keys=True)

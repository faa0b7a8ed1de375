A5=['Phase0','Altair','Bellatrix','Capella','Deneb']; A3=A5[2:]
def F(name,kind,since='Phase0',until='Deneb',ty=None): return (name,kind,since,until,ty)
body=[F(x,'r') for x in 'randao_reveal eth1_data graffiti proposer_slashings attester_slashings attestations deposits voluntary_exits'.split()]
tail=[F('bls_to_execution_changes','r','Capella'),F('blob_kzg_commitments','r','Deneb')]
blk=[F('slot','c'),F('proposer_index','c'),F('parent_root','c'),F('state_root','c')]
hdr=[F(x,'r') for x in 'parent_hash fee_recipient state_root receipts_root logs_bloom prev_randao'.split()]+[F(x,'c') for x in 'block_number gas_limit gas_used timestamp'.split()]+[F(x,'r') for x in 'extra_data base_fee_per_gas block_hash'.split()]
blob=[F('blob_gas_used','c','Deneb'),F('excess_blob_gas','c','Deneb')]
types={
 'BeaconBlockBody':(A5,body+[F('sync_aggregate','r','Altair'),F('execution_payload','n','Bellatrix','Deneb','ExecutionPayload')]+tail,True),
 'BeaconBlock':(A5,blk+[F('body','n','Phase0','Deneb','BeaconBlockBody')],True),
 'SignedBeaconBlock':(A5,[F('message','n','Phase0','Deneb','BeaconBlock'),F('signature','r')],False),
 'BlindedBeaconBlockBody':(A3,body+[F('sync_aggregate','r'),F('execution_payload_header','n','Bellatrix','Deneb','ExecutionPayloadHeader')]+tail,True),
 'BlindedBeaconBlock':(A3,blk+[F('body','n','Bellatrix','Deneb','BlindedBeaconBlockBody')],True),
 'SignedBlindedBeaconBlock':(A3,[F('message','n','Bellatrix','Deneb','BlindedBeaconBlock'),F('signature','r')],False),
 'ExecutionPayload':(A3,hdr+[F('transactions','r'),F('withdrawals','r','Capella')]+blob,True),
 'ExecutionPayloadHeader':(A3,hdr+[F('transactions_root','c'),F('withdrawals_root','c','Capella')]+blob,True),
 'BeaconState':(A5,[F(x,'c') for x in 'genesis_time genesis_validators_root slot'.split()]+[F(x,'r') for x in 'fork latest_block_header block_roots state_roots historical_roots eth1_data eth1_data_votes'.split()]+[F('eth1_deposit_index','c')]+[F(x,'r') for x in 'validators balances randao_mixes slashings'.split()]+[F(x,'r','Phase0','Phase0') for x in 'previous_epoch_attestations current_epoch_attestations'.split()]+[F(x,'r','Altair') for x in 'previous_epoch_participation current_epoch_participation'.split()]+[F(x,'r') for x in 'justification_bits previous_justified_checkpoint current_justified_checkpoint finalized_checkpoint'.split()]+[F(x,'r','Altair') for x in 'inactivity_scores current_sync_committee next_sync_committee'.split()]+[F('latest_execution_payload_header','n','Bellatrix','Deneb','ExecutionPayloadHeader')]+[F(x,'c','Capella') for x in 'next_withdrawal_index next_withdrawal_validator_index'.split()]+[F('historical_summaries','r','Capella')],True),
}
o='''//! C27: the containers that hold any fork's version (types/).
#![no_main]
use ethereum_consensus::ssz::prelude::*;
use ethereum_consensus::types::{self, minimal as t};
use ethereum_consensus::Fork;
use ethereum_consensus::{altair, bellatrix, capella, deneb, phase0};

fn at<T: ?Sized>(x: &T) -> usize {
    x as *const T as *const u8 as usize
}
/// Whether JSON picks the right fork and is that of the wrapped container.
fn json<E: serde::Serialize + serde::de::DeserializeOwned + PartialEq, I: serde::Serialize>(e: &E, i: &I) {
    let s = serde_json::to_string(e).unwrap();
    sym::check(s == serde_json::to_string(i).unwrap(), "the JSON is that of the fork's container");
    match serde_json::from_str::<E>(&s) {
        Ok(x) => sym::check(x == *e, "the JSON is read as the fork's container"),
        Err(_) => sym::check(false, "the JSON is read"),
    }
}
fn root<E: HashTreeRoot, I: HashTreeRoot>(e: &mut E, i: &mut I) {
    let (a, b) = (e.hash_tree_root().unwrap(), i.hash_tree_root().unwrap());
    sym::check(sym::eq_bytes(a.as_ref(), b.as_ref()), "the root is that of the fork's container");
}
trait Fill {
    fn fill(&mut self, n: u8);
}
impl Fill for u64 {
    fn fill(&mut self, _: u8) {
        *self = sym::any_u64("number");
    }
}
impl Fill for usize {
    fn fill(&mut self, _: u8) {
        *self = sym::any_usize("number");
    }
}
impl Fill for ethereum_consensus::primitives::Root {
    fn fill(&mut self, n: u8) {
        let mut b = [n; 32];
        b[0] = sym::any_u8("root");
        *self = Self::try_from(&b[..]).unwrap();
    }
}
'''
names=[]
vals=dict(MAX_PROPOSER_SLASHINGS=16,MAX_VALIDATORS_PER_COMMITTEE=2048,MAX_ATTESTER_SLASHINGS=2,MAX_ATTESTATIONS=128,MAX_DEPOSITS=16,MAX_VOLUNTARY_EXITS=16,SYNC_COMMITTEE_SIZE=32,BYTES_PER_LOGS_BLOOM=256,MAX_EXTRA_DATA_BYTES=32,MAX_BYTES_PER_TRANSACTION=1073741824,MAX_TRANSACTIONS_PER_PAYLOAD=1048576,MAX_WITHDRAWALS_PER_PAYLOAD=4,MAX_BLS_TO_EXECUTION_CHANGES=16,MAX_BLOB_COMMITMENTS_PER_BLOCK=16)
import re
SRC=open('/repo/ethereum-consensus/src/deneb/presets/minimal.rs').read()
def ann(T,r):
    if T=='BeaconState': return f': types::{T}{r}<64, 16777216, 32, 1099511627776, 64, 64, 2048, 1024, 32, 256, 32>'
    t=open('/repo/ethereum-consensus/src/types/'+re.sub('(?<!^)(?=[A-Z])','_',T).lower()+'.rs').read()
    m=re.search(r'pub enum '+T+r+r"<([^{]*)> \{",t)
    ps=re.findall(r'const (\w+)',m.group(1))
    return f': types::{T}{r}<'+', '.join(str(vals[q]) for q in ps)+'>'
def has(f,forks,k): 
    return A5.index(f[2])<=A5.index(k)<=A5.index(f[3])
for T,(forks,fields,ref) in types.items():
    for k in forks:
        fn=f'h_{"".join("_"+c.lower() if c.isupper() else c for c in T)[1:]}_{k.lower()}'
        names.append(fn)
        I=f'{k.lower()}::minimal::{T}'
        b=[]
        b.append(f'let mut inner = <{I}>::default();')
        n=1
        for f in fields:
            if f[1]=='c' and has(f,forks,k): b.append(f'inner.{f[0]}.fill({n});'); n+=1
        # three views
        views=[('e','')]
        if ref: views+=[('r','Ref'),('m','RefMut')]
        for v,suf in views:
            b.append('{')
            if v=='e':
                b.append(f'let mut x = t::{T}::{k}(inner.clone());')
                b.append(f'let i: *const {I} = if let t::{T}::{k}(i) = &x {{ i }} else {{ return }};')
            elif v=='r':
                b.append(f'let i: *const {I} = &inner;')
                b.append(f'let x{ann(T,"Ref")} = types::{T}Ref::from(&inner);')
            else:
                b.append(f'let i: *const {I} = &inner;')
                b.append(f'let mut x{ann(T,"RefMut")} = types::{T}RefMut::from(&mut inner);')
            b.append('let i = unsafe { &*i };')
            b.append(f'sym::check(matches!(x.version(), Fork::{k}), "the fork{suf}");')
            for o2 in forks:
                l=o2.lower()
                if o2==k:
                    b.append(f'sym::check(x.{l}().map(at) == Some(at(i)), "{l}{suf}");')
                    if v!='r': b.append(f'sym::check(x.{l}_mut().map(|y| at(y)) == Some(at(i)), "{l}_mut{suf}");')
                else:
                    b.append(f'sym::check(x.{l}().is_none(), "{l}{suf}");')
                    if v!='r': b.append(f'sym::check(x.{l}_mut().is_none(), "{l}_mut{suf}");')
            for f in fields:
                g=f[0]; opt=not all(has(f,forks,q) for q in forks); h=has(f,forks,k)
                msg=f'"{g}{suf}"'; msgm=f'"{g}_mut{suf}"'
                if not h:
                    b.append(f'sym::check(x.{g}().is_none(), {msg});')
                    if v!='r': b.append(f'sym::check(x.{g}_mut().is_none(), {msgm});')
                    continue
                if f[1]=='r':
                    b.append(f'sym::check(x.{g}().map(at) == Some(at(&i.{g})), {msg});' if opt else f'sym::check(at(x.{g}()) == at(&i.{g}), {msg});')
                elif f[1]=='c':
                    b.append(f'sym::check(x.{g}() == Some(i.{g}), {msg});' if opt else f'sym::check(x.{g}() == i.{g}, {msg});')
                else:
                    # what holds the nested container has the same forks as far as they exist
                    pat=f'types::{f[4]}Ref::{k}(y)'
                    if opt: pat=f'Some({pat})'
                    b.append(f'sym::check(match x.{g}() {{ {pat} => at(y) == at(&i.{g}), _ => false }}, {msg});')
                if v!='r':
                    if f[1] in 'rc':
                        b.append(f'sym::check(x.{g}_mut().map(|y| at(y)) == Some(at(&i.{g})), {msgm});' if opt else f'sym::check(at(x.{g}_mut()) == at(&i.{g}), {msgm});')
                    else:
                        pat=f'types::{f[4]}RefMut::{k}(y)'
                        if opt: pat=f'Some({pat})'
                        b.append(f'sym::check(match x.{g}_mut() {{ {pat} => at(y) == at(&i.{g}), _ => false }}, {msgm});')
            if v=='e': b.append('root(&mut x, &mut inner);')
            else: b.append('let mut c = i.clone(); root(&mut { x }, &mut c);')
            b.append('}')
        b.append(f'let z = <{I}>::default();')
        b.append(f'json(&t::{T}::{k}(z.clone()), &z);')
        b.append('sym::cover("checked");')
        o+='#[no_mangle]\npub extern "C" fn '+fn+'() {\n    '+'\n    '.join(b)+'\n}\n'
o+='sym::main! {\n'+''.join(f'    {n} = {n},\n' for n in names)+'}\n'
open('/verif/harness/src/bin/c27.rs','w').write(o)

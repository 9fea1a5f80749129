//@ include common.vrs
//@ include cell.vrs
verus! {
//@ type src/terminal.rs Key derive=Structural
//@ type src/terminal.rs MouseButton derive=Structural
//@ type src/terminal.rs MouseInput derive=Structural
}
//@ use signal.vrs
//@ include io.vrs
//@ use events.vrs mod=events names="Event,SeqData,SeqMap,MouseEvent,ModifierState,peek_event,invalid_prefix_len,event_at,waits,broken,bad_len,is_up,incomplete,SequenceMap,lemma_up"
//@ included seqmap.vrs
//@ include termbase.vrs
//@ use writer.vrs
//@ use reader.vrs
//@ use terminal.vrs

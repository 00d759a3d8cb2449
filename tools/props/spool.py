SP='submission/disk_spool.go'
PROPS = [
 dict(id='Q01', title='A spooled message survives crashes and failures complete or not at all',
  statement='A message the submission spool accepted is stored complete, unaltered and once, in the directory of its priority; one that was refused (invalid or the spool is full) is not stored. Whichever file operation fails and wherever the process crashes, while submitting or while recording a failed delivery, no partial message ever shows in the spool, nothing else in it is lost, and a message that may be tried again is still there.',
  over=['crash_points','inputs','fault_sequences'], qtext='every message within the bounds and a failure of, or a crash at, each file operation', why='Needs a crash or failure at each point of the file operations.',
  files=[SP,'submission/msg.go'], mech=[('submit', SP+' Submit'), ('retry', SP+' IncrementTries'), ('validation', 'submission/msg.go Validate')],
  note='The file system is modelled in memory with symbolic crash and fault points between operations; tearing within a single write is modelled by file creation and writing being separate operations.'),
 dict(id='Q03', title='Spooled messages are published in order and never after they were acknowledged',
  statement='A reliable message is published until it is acknowledged, expires or runs out of tries, and never once acknowledged or expired, even when its file cannot be removed; an unreliable one is tried exactly once. The number of tries is recorded, messages leave the spool when done and not before, they are published with the payload, subject and headers they were submitted with, and in order while nothing fails.',
  over=['histories','fault_sequences'], qtext='every history of publish outcomes, acknowledgements and removal failures over the polls within the bounds', why='Tests do not combine failing removals, bad acknowledgements and repeated polls.',
  files=['submission/spool.go',SP,'submission/msg.go'], mech=[('publishing', 'submission/spool.go Run, publishReliable'), ('polling', SP+' processDir'), ('skip list', SP+' removeCompletedWithSkip')],
  note='Runs the real spool with its workers over modelled time, file system and broker.'),
]

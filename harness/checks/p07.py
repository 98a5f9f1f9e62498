from repocheck import repo_check

CLAUSES = {
    "not-incremental", "wrong-base", "foreign-snapshot-touched", "unknown-snapshot",
    "snapshots-wrong", "own-snapshot-lost", "snapshots-changed",
}
WEIGHTS = dict(img=2, backup=9, badbackup=2, gc=0.5, verify=1, rm=2.5, distrust=2, tags=0.5,
               expire=1, restore=0.3, snaplost=1.5, oldsnap=1.5, orphansnap=1, remote=1.5,
               crash=1.5, foreign=2, damage=0.3)


def run(c):
    repo_check(c, CLAUSES, WEIGHTS, thorough=(300, 1500, 24))

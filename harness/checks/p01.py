from repocheck import repo_check

CLAUSES = {
    "content-wrong", "restored-wrong-bytes", "restore-failed", "restore-changed-repository",
    "success-without-revision", "spurious-failure", "intact-revision-lost", "chunk-lost",
    "metadata-wrong", "other-revisions-changed", "incomplete-revision-kept",
    "referenced-chunk-deleted", "chunk-changed", "store-changed", "fault-unnoticed",
    "damage-unnoticed", "verify-store", "verify-changed-others", "gc-changed-revisions",
    "revision-appeared",
}
WEIGHTS = dict(img=3, backup=7, badbackup=1, gc=2, verify=2, rm=2, distrust=1, tags=2,
               expire=2, restore=3, snaplost=1, oldsnap=0.5, remote=0.7, crash=1,
               foreign=0.5, damage=0.7, nomap=0.1, check=0.2)


def run(c):
    repo_check(c, CLAUSES, WEIGHTS, thorough=(300, 1500, 24))

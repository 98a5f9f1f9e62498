from repocheck import repo_check

CLAUSES = {
    "referenced-chunk-deleted", "garbage-kept", "deleted-without-knowledge", "chunk-changed",
    "gc-changed-revisions", "pending-marker", "gc-exit-status", "gc-side-effect",
    "chunk-lost", "verify-store", "restore-failed",
}
WEIGHTS = dict(img=2, backup=6, badbackup=1, gc=6, verify=2, rm=4, distrust=1.5, tags=1,
               expire=3, restore=1, remote=1, crash=1.5, damage=0.6, nomap=0.5, oldsnap=0.5)


def run(c):
    repo_check(c, CLAUSES, WEIGHTS, thorough=(300, 1500, 24))

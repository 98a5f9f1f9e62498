from repocheck import repo_check

CLAUSES = {
    "not-rewritten", "distrusted-not-verified", "intact-not-verified", "damaged-revision-kept",
    "damaged-verified", "verify-changed-others", "verify-store", "verify-outcome",
    "verify-exit-status", "verify-side-effect", "wrong-base", "intact-revision-lost",
    "distrust-wrong",
}
WEIGHTS = dict(img=2, backup=7, badbackup=0.5, gc=0.5, verify=5, rm=1, distrust=5, tags=0.3,
               expire=0.3, restore=0.5, snaplost=0.5, oldsnap=1, remote=1, crash=0.5,
               damage=3, nomap=0.1)


def run(c):
    repo_check(c, CLAUSES, WEIGHTS, thorough=(300, 1500, 24))

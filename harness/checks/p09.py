from repocheck import repo_check

CLAUSES = {
    "fault-unnoticed", "damage-unnoticed", "failed-revision-kept", "incomplete-revision-kept",
    "unexpected-report", "report-missing", "report-lost", "report-incomplete",
    "read-error-not-distrusted", "other-revisions-changed", "report-side-effect",
    "report-delete-wrong", "report-exit-status", "list-side-effect", "report-list-wrong",
    "check-side-effect", "check-status-wrong", "content-wrong", "reports-changed",
    "success-without-revision",
}
WEIGHTS = dict(img=2, backup=4, badbackup=8, gc=0.5, verify=1, rm=1, distrust=0.7, tags=0.3,
               expire=0.3, restore=0.5, remote=1, crash=0.3, damage=2, reports=4, oldsnap=1)


def run(c):
    repo_check(c, CLAUSES, WEIGHTS, thorough=(300, 1500, 24))

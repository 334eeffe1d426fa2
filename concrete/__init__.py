"""Executable contracts: run the real code of /repo on concrete inputs and compare with an independent reference.

Used to replay failed obligations on the real code and as the labelled bounded stand-in; never counted as proved."""

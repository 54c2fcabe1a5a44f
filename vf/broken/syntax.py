def (

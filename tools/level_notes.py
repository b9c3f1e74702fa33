NA = {}
NOTES = {
 "C01": {"note": "All nine motor models: derivative and torque equal an independently written form of the documented equations, for all parameters, states, speeds and voltages."},
}

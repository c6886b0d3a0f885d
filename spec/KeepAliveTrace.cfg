SPECIFICATION Spec
CONSTANTS
  P = 2000
  R = 2000
  Jitter = 400
  Slack = 800
  Skew = 300

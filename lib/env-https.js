module.exports = require('./env-http').https;

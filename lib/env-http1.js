module.exports = require('./env-http').http;
